// C runtime for the symbolic executor: the parts of libc that the code under test (or a plausible rewrite of it) uses.
// malloc family, memcpy/memmove/memset/memcmp, errno, exit and pow are built into the executor.
#define _GNU_SOURCE
#include "sx.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/time.h>
#include <poll.h>
#include <sys/uio.h>

#define W __attribute__((weak))
W ssize_t sx_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; return 0; }
W ssize_t sx_write(int fd, const void *b, size_t n) { (void)fd; (void)b; return (ssize_t)n; }
W int sx_select(int n, void *r) { (void)n; (void)r; return 1; }
W int sx_open(const char *p, int f) { (void)p; (void)f; return 5; }
W int sx_close(int fd) { (void)fd; return 0; }
W void sx_uuid(unsigned char *o) { for (int i = 0; i < 16; i++) o[i] = (unsigned char)(i * 17 + 3); }

ssize_t read(int fd, void *b, size_t n) { return sx_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return sx_write(fd, b, n); }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { (void)w; (void)e; (void)t; return sx_select(n, r); }
int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m) { (void)w; (void)e; (void)t; (void)m; return sx_select(n, r); }
int poll(struct pollfd *p, nfds_t n, int t) { (void)t; for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int)n; }
int open(const char *p, int f, ...) { return sx_open(p, f); }
int close(int fd) { return sx_close(fd); }
void uuid_generate(unsigned char *o) { sx_uuid(o); }
void uuid_generate_random(unsigned char *o) { sx_uuid(o); }
void uuid_generate_time(unsigned char *o) { for (int i = 0; i < 16; i++) o[i] = (unsigned char)i; } // not random
ssize_t getrandom(void *b, size_t n, unsigned f) { (void)f; return sx_read(-2, b, n); }
int getentropy(void *b, size_t n) { return sx_read(-2, b, n) == (ssize_t)n ? 0 : -1; }
void arc4random_buf(void *b, size_t n) { (void)!sx_read(-2, b, n); }
// several buffers at once: written in one go, read into the first that is not empty
ssize_t writev(int fd, const struct iovec *v, int k) { size_t n = 0, o = 0; for (int i = 0; i < k; i++) n += v[i].iov_len; unsigned char *t = __builtin_alloca(n ? n : 1); for (int i = 0; i < k; i++) { memcpy(t + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; } return sx_write(fd, t, n); }
ssize_t readv(int fd, const struct iovec *v, int k) { for (int i = 0; i < k; i++) if (v[i].iov_len) return sx_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
int usleep(unsigned t) { (void)t; return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { (void)t; (void)r; return 0; }
unsigned sleep(unsigned t) { (void)t; return 0; }
unsigned arc4random(void) { unsigned v = 0; (void)!sx_read(-2, &v, sizeof v); return v; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), m = strnlen(s, n); memcpy(d + l, s, m); d[l + m] = 0; return d; }
int getpid(void) { return 4711; }
static unsigned rnd = 1;
int rand(void) { rnd = rnd * 1103515245u + 12345u; return (int)((rnd >> 16) & 0x7fff); }
void srand(unsigned s) { rnd = s; }

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) { } return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return NULL; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); if (r) memcpy(r, s, n); return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void bzero(void *p, size_t n) { memset(p, 0, n); }
char *strerror(int e) { (void)e; return "error"; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
unsigned short htons(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
unsigned short ntohs(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
unsigned htonl(unsigned x) { return __builtin_bswap32(x); }
unsigned ntohl(unsigned x) { return __builtin_bswap32(x); }
// ctype tables of glibc's inline macros
static unsigned short ctab[384]; static const unsigned short *ctabp; static int ltab[384], utab[384]; static const int *ltabp, *utabp;
const unsigned short **__ctype_b_loc(void) {
  if (!ctabp) { for (int i = 0; i < 256; i++) { int c = i; ctab[128 + i] = (unsigned short)((isupper(c) ? 1 << 8 : 0) | (islower(c) ? 1 << 9 : 0) | (isalpha(c) ? 1 << 10 : 0) | (isdigit(c) ? 1 << 11 : 0) | (isxdigit(c) ? 1 << 12 : 0) | (isspace(c) ? 1 << 13 : 0) | (isprint(c) ? 1 << 14 : 0) | (isgraph(c) ? 1 << 15 : 0) | (c == 32 || c == 9 ? 1 : 0) | (c < 32 || c == 127 ? 2 : 0) | (isgraph(c) && !isalnum(c) ? 4 : 0) | (isalnum(c) ? 8 : 0)); } ctabp = ctab + 128; }
  return &ctabp;
}
const int **__ctype_tolower_loc(void) { if (!ltabp) { for (int i = 0; i < 256; i++) ltab[128 + i] = tolower(i); ltabp = ltab + 128; } return &ltabp; }
const int **__ctype_toupper_loc(void) { if (!utabp) { for (int i = 0; i < 256; i++) utab[128 + i] = toupper(i); utabp = utab + 128; } return &utabp; }
// (glibc headers redirect strtol, strtoul and sscanf to __isoc99_ and __isoc23_ names, so each is defined under every name by an asm label)
static unsigned long ul(const char *s, char **e, int base) {
  unsigned long v = 0; const char *p = s; int neg = 0, any = 0; while (isspace((unsigned char)*p)) p++;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) { int c = (unsigned char)*p, d; if (isdigit(c)) d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; v = v * (unsigned)base + (unsigned)d; any = 1; }
  if (e) *e = (char *)(any ? p : s); return neg ? 0 - v : v;
}
#define ALIAS(r, n, l) r n(const char *s, char **e, int base) __asm__(l); r n(const char *s, char **e, int base) { return (r)ul(s, e, base); }
ALIAS(unsigned long, ul_1, "strtoul") ALIAS(unsigned long, ul_2, "__isoc23_strtoul") ALIAS(long, l_1, "strtol") ALIAS(long, l_2, "__isoc23_strtol")
ALIAS(unsigned long long, ull_1, "strtoull") ALIAS(unsigned long long, ull_2, "__isoc23_strtoull") ALIAS(long long, ll_1, "strtoll") ALIAS(long long, ll_2, "__isoc23_strtoll")
int atoi(const char *s) { return (int)ul(s, NULL, 10); }

// a small printf: %d %i %u %x %X %c %s %p %zu %lu %llu %hhx with flags 0 and - and width; floating conversions emit a placeholder
struct out { char *b; size_t cap, n; };
static void oc(struct out *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static int fmt(struct out *o, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { oc(o, *f); continue; }
    f++; int zero = 0, left = 0, width = 0, prec = -1, lng = 0, hh = 0, alt = 0, plus = 0;
    for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '#') alt = 1; else if (*f == '+') plus = 1; else if (*f == ' ') { } else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f == 'h') hh++; else lng = 1; f++; }
    char tmp[72]; int n = 0; int neg = 0; const char *s = NULL; size_t sl = 0;
    switch (*f) {
    case '%': oc(o, '%'); continue;
    case 'c': tmp[0] = (char)va_arg(ap, int); s = tmp; sl = 1; zero = 0; break;
    case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; sl = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s); zero = 0; break;
    case 'd': case 'i': { long v = lng ? va_arg(ap, long) : va_arg(ap, int); if (hh == 2) v = (signed char)v; else if (hh == 1) v = (short)v; unsigned long u = (unsigned long)v; if (v < 0) { neg = 1; u = 0 - u; }
      if (!prec && !u) break;
      do { tmp[n++] = (char)('0' + u % 10); u /= 10; } while (u); break; }
    case 'u': case 'x': case 'X': case 'p': { unsigned long u = lng || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (hh == 2) u = (unsigned char)u; else if (hh == 1) u = (unsigned short)u;
      const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; unsigned long base = *f == 'u' ? 10 : 16;
      if (!prec && !u) break;
      int mind = zero && !left ? width : 0; if (prec > mind) mind = prec;
      if (base == 16) { int bytes = lng || *f == 'p' ? 16 : hh == 2 ? 2 : hh == 1 ? 4 : 8; int k = 0; (void)k; do { tmp[n++] = dg[u & 15]; u >>= 4; } while (n < bytes && (n < mind || u)); }
      else do { tmp[n++] = (char)('0' + u % 10); u /= 10; } while (u);
      (void)alt; break; }
    case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': (void)va_arg(ap, double); s = "<fp>"; sl = 4; zero = 0; break;
    default: return -1;
    }
    if (!s) { // number in tmp, reversed
      int tot = n + neg + (plus && !neg); if (!left && !zero) for (int i = tot; i < width; i++) oc(o, ' ');
      if (neg) oc(o, '-'); else if (plus) oc(o, '+');
      if (prec > n) for (int i = n; i < prec; i++) oc(o, '0');
      if (!left && zero) for (int i = tot; i < width; i++) oc(o, '0');
      for (int i = n; i-- > 0;) oc(o, tmp[i]);
      if (left) for (int i = tot; i < width; i++) oc(o, ' ');
    } else { if (!left) for (size_t i = sl; i < (size_t)width; i++) oc(o, ' '); for (size_t i = 0; i < sl; i++) oc(o, s[i]); if (left) for (size_t i = sl; i < (size_t)width; i++) oc(o, ' '); }
  }
  return 0;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { struct out o = {b, n, 0}; fmt(&o, f, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return (int)o.n; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { struct out o = {b, (size_t)1 << 40, 0}; fmt(&o, f, ap); b[o.n] = 0; return (int)o.n; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strpbrk(const char *s, const char *set) { for (; *s; s++) if (strchr(set, *s)) return (char *)s; return NULL; }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char *strstr(const char *s, const char *t) { size_t n = strlen(t); for (;; s++) { if (!strncmp(s, t, n)) return (char *)s; if (!*s) return NULL; } }
void *memmem(const void *h, size_t n, const void *t, size_t m) { const char *p = h; for (size_t i = 0; i + m <= n; i++) if (!memcmp(p + i, t, m)) return (void *)(p + i); return NULL; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *q = p; while (n--) if (q[n] == (unsigned char)c) return (void *)(q + n); return NULL; }
long labs(long x) { return x < 0 ? -x : x; }
long atol(const char *s) { return (long)ul(s, NULL, 10); }
void *reallocarray(void *p, size_t n, size_t m) { return realloc(p, n * m); }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) { size_t l = 0; while (l < n) { size_t m = (l + n) / 2; const char *p = (const char *)b + m * w; int r = cmp(k, p); if (!r) return (void *)p; if (r < 0) n = m; else l = m + 1; } return NULL; }
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) { char *a = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j && cmp(a + (j - 1) * w, a + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = a[(j - 1) * w + k]; a[(j - 1) * w + k] = a[j * w + k]; a[j * w + k] = t; } }
// sscanf: %x %X %d %u %i %c %n with width and size, white space and literal characters
static int scan(const char *s, const char *f, va_list ap) {
  int cnt = 0; const char *s0 = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return *s || cnt ? cnt : -1; s++; continue; }
    f++; int skip = 0, width = 0, hh = 0, l = 0; if (*f == '*') { skip = 1; f++; }
    while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
    while (*f == 'h' || *f == 'l' || *f == 'z') { if (*f == 'h') hh++; else l = 1; f++; }
    if (*f == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
    if (*f == 'c') { if (!*s) return cnt ? cnt : -1; if (!skip) { *va_arg(ap, char *) = *s; cnt++; } s++; continue; }
    int base = *f == 'x' || *f == 'X' ? 16 : 10; unsigned long v = 0; int neg = 0, n = 0;
    while (isspace((unsigned char)*s)) s++;
    if (!*s) return cnt ? cnt : -1;
    if ((*s == '-' || *s == '+') && width != 1) { neg = *s == '-'; s++; if (width) width--; }
    for (; !width || n < width; n++) { int c = (unsigned char)*s; unsigned d; if (c >= '0' && c <= '9') d = (unsigned)(c - '0'); else if (base == 16 && c >= 'a' && c <= 'f') d = (unsigned)(c - 'a' + 10); else if (base == 16 && c >= 'A' && c <= 'F') d = (unsigned)(c - 'A' + 10); else break; v = v * (unsigned)base + d; s++; }
    if (!n) return cnt;
    if (neg) v = 0 - v;
    if (!skip) { cnt++; if (l) *va_arg(ap, unsigned long *) = v; else if (hh == 2) *va_arg(ap, unsigned char *) = (unsigned char)v; else if (hh == 1) *va_arg(ap, unsigned short *) = (unsigned short)v; else *va_arg(ap, unsigned *) = (unsigned)v; }
  }
  return cnt;
}
#define SCAN(n, l) int n(const char *s, const char *f, ...) __asm__(l); int n(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
SCAN(sc_1, "sscanf") SCAN(sc_2, "__isoc99_sscanf") SCAN(sc_3, "__isoc23_sscanf")
#define VSCAN(n, l) int n(const char *s, const char *f, va_list ap) __asm__(l); int n(const char *s, const char *f, va_list ap) { return scan(s, f, ap); }
VSCAN(vsc_1, "vsscanf") VSCAN(vsc_2, "__isoc99_vsscanf") VSCAN(vsc_3, "__isoc23_vsscanf")
