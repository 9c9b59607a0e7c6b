// interface between a harness and whoever executes it: the symbolic executor (build/symx) or the native replay runtime
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
void symx_make_symbolic(void *p, unsigned long n, const char *name);
void symx_assume(int c);
void symx_assert(int c, const char *msg);
void symx_mark(const char *label);
unsigned long symx_concretize(unsigned long v);
long symx_heap_live(void);
unsigned long symx_heap_bytes(void);
void symx_note(unsigned long v);
int symx_is_native(void);
long symx_param(const char *name, long dflt); // job parameter, concrete
#define PARAM(n, d) ((int)symx_param(#n, d))
void symx_path_end(void) __attribute__((noreturn));
#define CHECK(c, msg) symx_assert((c) != 0, msg)
void *malloc(size_t);
void free(void *);

// environment: a harness that needs I/O overrides these (weak defaults in the runtimes)
ssize_t sx_read(int fd, void *buf, size_t n);
ssize_t sx_write(int fd, const void *buf, size_t n);
int sx_select(int nfds, void *rd);
int sx_open(const char *path, int flags);
int sx_close(int fd);
void sx_uuid(unsigned char *out);
// every formatted output of the code under test arrives here: stream 1 = stdout, 2 = stderr
#include <stdarg.h>
void sx_vprintf(int stream, const char *fmt, va_list ap);

// symbolic helpers
static inline unsigned char sx_u8(const char *name) { unsigned char v; symx_make_symbolic(&v, 1, name); return v; }
static inline uint16_t sx_u16(const char *name) { uint16_t v; symx_make_symbolic(&v, 2, name); return v; }
static inline uint32_t sx_u32(const char *name) { uint32_t v; symx_make_symbolic(&v, 4, name); return v; }
static inline uint64_t sx_u64(const char *name) { uint64_t v; symx_make_symbolic(&v, 8, name); return v; }
// a value in [0, n), one path per value
static inline unsigned sx_choose(unsigned n, const char *name) {
  if (n <= 1) return 0;
  if (n <= 256) { unsigned char v; symx_make_symbolic(&v, 1, name); symx_assume(v < n); return (unsigned)symx_concretize(v); }
  uint16_t v; symx_make_symbolic(&v, 2, name); symx_assume(v < n); return (unsigned)symx_concretize(v);
}
#endif
