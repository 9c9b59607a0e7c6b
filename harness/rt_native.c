// native replay runtime: runs the same harness, compiled with sanitizers, on the concrete bytes the solver produced.
// stdin: one input (hex) per line; output per line: "OK notes..." | "KILL" | "FAIL <kind> <msg>"
#define _GNU_SOURCE
#include "sx.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <sys/uio.h>
#include <sys/resource.h>

#define W __attribute__((weak))
W ssize_t sx_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; return 0; }
W ssize_t sx_write(int fd, const void *b, size_t n) { (void)fd; (void)b; return (ssize_t)n; }
W int sx_select(int n, void *r) { (void)n; (void)r; return 1; }
W int sx_open(const char *p, int f) { (void)p; (void)f; return 5; }
W int sx_close(int fd) { (void)fd; return 0; }
W void sx_uuid(unsigned char *o) { for (int i = 0; i < 16; i++) o[i] = (unsigned char)(i * 17 + 3); }
ssize_t sxw_read(int fd, void *b, size_t n) { return sx_read(fd, b, n); }
ssize_t sxw_write(int fd, const void *b, size_t n) { return sx_write(fd, b, n); }
int sxw_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { (void)w; (void)e; (void)t; return sx_select(n, r); }
int sxw_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m) { (void)w; (void)e; (void)t; (void)m; return sx_select(n, r); }
int sxw_poll(struct pollfd *p, nfds_t n, int t) { (void)t; for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int)n; }
int sxw_open(const char *p, int f, ...) { return sx_open(p, f); }
int sxw_close(int fd) { return sx_close(fd); }
void sxw_uuid_generate(unsigned char *o) { sx_uuid(o); }
void sxw_uuid_generate_random(unsigned char *o) { sx_uuid(o); }
void sxw_uuid_generate_time(unsigned char *o) { for (int i = 0; i < 16; i++) o[i] = (unsigned char)i; } // not random
ssize_t sxw_getrandom(void *b, size_t n, unsigned f) { (void)f; return sx_read(-2, b, n); }
int sxw_getentropy(void *b, size_t n) { return sx_read(-2, b, n) == (ssize_t)n ? 0 : -1; }
void sxw_arc4random_buf(void *b, size_t n) { (void)!sx_read(-2, b, n); }
// several buffers at once: written in one go, read into the first that is not empty
ssize_t sxw_writev(int fd, const struct iovec *v, int k) { size_t n = 0, o = 0; for (int i = 0; i < k; i++) n += v[i].iov_len; unsigned char *t = __builtin_alloca(n ? n : 1); for (int i = 0; i < k; i++) { memcpy(t + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; } return sx_write(fd, t, n); }
ssize_t sxw_readv(int fd, const struct iovec *v, int k) { for (int i = 0; i < k; i++) if (v[i].iov_len) return sx_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
int sxw_usleep(unsigned t) { (void)t; return 0; }
int sxw_nanosleep(const struct timespec *t, struct timespec *r) { (void)t; (void)r; return 0; }
unsigned sxw_sleep(unsigned t) { (void)t; return 0; }
unsigned sxw_arc4random(void) { unsigned v = 0; (void)!sx_read(-2, &v, sizeof v); return v; }

// heap accounting, same rules as the symbolic executor
struct hd { void *p; size_t n; struct hd *next; }; static struct hd *tab[4096]; static long live; static unsigned long bytes;
static unsigned hh(void *p) { return ((uintptr_t)p >> 4) & 4095; }
static void hadd(void *p, size_t n) { if (!p) return; struct hd *h = malloc(sizeof *h); h->p = p; h->n = n; h->next = tab[hh(p)]; tab[hh(p)] = h; live++; bytes += n; }
static void hdel(void *p) { for (struct hd **q = &tab[hh(p)]; *q; q = &(*q)->next) if ((*q)->p == p) { struct hd *h = *q; *q = h->next; live--; bytes -= h->n; free(h); return; } }
void *sxw_malloc(size_t n) { void *p = n > (1ul << 28) ? NULL : malloc(n); hadd(p, n); return p; }
void *sxw_calloc(size_t a, size_t b) { void *p = a * b > (1ul << 28) ? NULL : calloc(a, b); hadd(p, a * b); return p; }
void *sxw_realloc(void *p, size_t n) { if (p && !n) { hdel(p); free(p); return NULL; } if (n > (1ul << 28)) return NULL; void *q = realloc(p, n); if (p) hdel(p); hadd(q, n); return q; }
void sxw_free(void *p) { if (p) hdel(p); free(p); }
char *sxw_strdup(const char *s) { char *p = strdup(s); hadd(p, strlen(s) + 1); return p; }
char *sxw_strndup(const char *s, size_t n) { char *p = strndup(s, n); hadd(p, strlen(p) + 1); return p; }

static unsigned char *in; static size_t inN, inP; static FILE *rep; static int failed;
void symx_make_symbolic(void *p, unsigned long n, const char *name) { (void)name; unsigned char *q = p; for (unsigned long i = 0; i < n; i++) q[i] = inP < inN ? in[inP++] : 0; }
static void done(int code) { fputc('\n', rep); fflush(rep); _exit(code); }
void symx_assume(int c) { if (!c) { fprintf(rep, "KILL"); done(0); } }
void symx_assert(int c, const char *m) { if (!c) { fprintf(rep, "FAIL assert %s", m); failed = 1; done(3); } }
void symx_mark(const char *l) { (void)l; }
unsigned long symx_concretize(unsigned long v) { return v; }
long symx_heap_live(void) { return live; }
unsigned long symx_heap_bytes(void) { return bytes; }
static unsigned long notes[200000]; static size_t nNotes;
void symx_note(unsigned long v) { if (nNotes < 200000) notes[nNotes++] = v; }
int symx_is_native(void) { return 1; }
static int pc; static char **pv;
long symx_param(const char *name, long dflt) { size_t l = strlen(name); for (int i = 2; i < pc; i++) if (!strncmp(pv[i], name, l) && pv[i][l] == '=') return atol(pv[i] + l + 1); return dflt; }
void symx_path_end(void) { fprintf(rep, "OK"); for (size_t i = 0; i < nNotes; i++) fprintf(rep, " %lu", notes[i]); done(0); __builtin_unreachable(); }
// exit() in the code under test ends the path, like in the executor
void sxw_exit(int c) { (void)c; symx_path_end(); }
void sxw__exit(int c) { (void)c; symx_path_end(); }
extern void harness(void);
static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
// formatted output of the code under test
W void sx_vprintf(int st, const char *f, va_list a) { (void)st; (void)f; (void)a; }
static void pr(int st, const char *f, ...) { va_list a; va_start(a, f); sx_vprintf(st, f, a); va_end(a); }
int sxw_printf(const char *f, ...) { va_list a; va_start(a, f); sx_vprintf(1, f, a); va_end(a); return 1; }
int sxw_vprintf(const char *f, va_list a) { sx_vprintf(1, f, a); return 1; }
int sxw_puts(const char *t) { pr(1, "%s\n", t); return 1; }
int sxw_putchar(int c) { pr(1, "%c", c); return c; }
int sxw_fprintf(FILE *fp, const char *f, ...) { va_list a; va_start(a, f); sx_vprintf(fp == stdout ? 1 : 2, f, a); va_end(a); return 1; }
int sxw_vfprintf(FILE *fp, const char *f, va_list a) { sx_vprintf(fp == stdout ? 1 : 2, f, a); return 1; }
int sxw_fputs(const char *t, FILE *fp) { pr(fp == stdout ? 1 : 2, "%s", t); return 1; }
int sxw_fputc(int c, FILE *fp) { pr(fp == stdout ? 1 : 2, "%c", c); return c; }
int sxw_putchar_unlocked(int c) { pr(1, "%c", c); return c; }
int sxw_putc(int c, FILE *fp) { return sxw_fputc(c, fp); }
size_t sxw_fwrite(const void *p, size_t n, size_t m, FILE *fp) { const unsigned char *q = p; for (size_t i = 0; i < n * m; i++) sxw_fputc(q[i], fp); return m; }
int sxw_dprintf(int fd, const char *f, ...) { va_list a; va_start(a, f); sx_vprintf(fd == 1 ? 1 : 2, f, a); va_end(a); return 1; }
void sxw_perror(const char *t) { (void)t; }
int sxw_fflush(FILE *fp) { (void)fp; return 0; }

int main(int argc, char **argv) {
  pc = argc; pv = argv;
  int tmo = argc > 1 ? atoi(argv[1]) : 20; char *line = NULL; size_t cap = 0; ssize_t l;
  while ((l = getline(&line, &cap, stdin)) > 0) {
    while (l && (line[l - 1] == '\n' || line[l - 1] == ' ')) l--;
    int p[2], e[2]; if (pipe(p) || pipe(e)) return 9;
    fflush(stdout);
    pid_t c = fork();
    if (!c) {
      close(p[0]); close(e[0]); dup2(e[1], 2); rep = fdopen(p[1], "w"); alarm((unsigned)tmo);
      in = malloc((size_t)l / 2 + 1); inN = 0; for (ssize_t i = 0; i + 1 < l; i += 2) in[inN++] = (unsigned char)(hv(line[i]) << 4 | hv(line[i + 1]));
      harness(); symx_path_end();
    }
    close(p[1]); close(e[1]);
    static char buf[1 << 22], eb[1 << 16]; size_t n = 0, en = 0; struct pollfd pf[2] = {{p[0], POLLIN, 0}, {e[0], POLLIN, 0}}; int open2 = 2;
    while (open2) { poll(pf, 2, -1); 
      if (pf[0].revents) { ssize_t r = read(p[0], buf + n, sizeof buf - 1 - n); if (r <= 0) { pf[0].fd = -1; open2--; } else n += (size_t)r; }
      if (pf[1].revents) { char t[4096]; ssize_t r = read(e[0], t, sizeof t); if (r <= 0) { pf[1].fd = -1; open2--; } else { size_t k = (size_t)r; if (en + k > sizeof eb - 1) k = sizeof eb - 1 - en; memcpy(eb + en, t, k); en += k; } } }
    close(p[0]); close(e[0]);
    int st; waitpid(c, &st, 0); buf[n] = 0; eb[en] = 0;
    while (n && buf[n - 1] == '\n') buf[--n] = 0;
    if (WIFSIGNALED(st)) printf("FAIL %s signal %d\n", WTERMSIG(st) == SIGALRM ? "nontermination" : "signal", WTERMSIG(st));
    else if (n && WEXITSTATUS(st) != 99) printf("%s\n", buf);
    else { // sanitizer report
      char *q = strstr(eb, "ERROR: "); char *r = strstr(eb, "runtime error: "); if (!q) q = strstr(eb, "WARNING: MemorySanitizer"); if (r && (!q || r < q)) q = r;
      char m[300] = "died"; if (q) { size_t k = strcspn(q, "\n"); if (k > 290) k = 290; memcpy(m, q, k); m[k] = 0; }
      printf("FAIL sanitizer %s\n", m);
    }
  }
  fflush(stdout); return 0;
}
