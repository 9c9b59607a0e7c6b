// the output functions of the C library: everything that is printed arrives at sx_vprintf
#ifdef SYMX
static char s_out, s_err; FILE *stdout = (FILE *)&s_out, *stderr = (FILE *)&s_err;
static void pr(int st, const char *f, ...) { va_list a; va_start(a, f); sx_vprintf(st, f, a); va_end(a); }
int printf(const char *f, ...) { va_list a; va_start(a, f); sx_vprintf(1, f, a); va_end(a); return 1; }
int vprintf(const char *f, va_list a) { sx_vprintf(1, f, a); return 1; }
int fprintf(FILE *fp, const char *f, ...) { va_list a; va_start(a, f); sx_vprintf(fp == stdout ? 1 : 2, f, a); va_end(a); return 1; }
int vfprintf(FILE *fp, const char *f, va_list a) { sx_vprintf(fp == stdout ? 1 : 2, f, a); return 1; }
int dprintf(int fd, const char *f, ...) { va_list a; va_start(a, f); sx_vprintf(fd == 1 ? 1 : 2, f, a); va_end(a); return 1; }
int puts(const char *t) { pr(1, "%s\n", t); return 1; }
int putchar(int c) { pr(1, "%c", c); return c; }
int putchar_unlocked(int c) { pr(1, "%c", c); return c; }
int fputs(const char *t, FILE *fp) { pr(fp == stdout ? 1 : 2, "%s", t); return 1; }
int fputc(int c, FILE *fp) { pr(fp == stdout ? 1 : 2, "%c", c); return c; }
#undef putc
int putc(int c, FILE *fp) { return fputc(c, fp); }
size_t fwrite(const void *p, size_t n, size_t m, FILE *fp) { const unsigned char *q = p; for (size_t i = 0; i < n * m; i++) fputc(q[i], fp); return m; }
#endif
