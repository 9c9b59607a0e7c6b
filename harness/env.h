// the descriptor a transmission is read from: a byte stream with an end, delivered in pieces the environment chooses
#ifndef ENV_H
#define ENV_H
#include "sx.h"
#include <errno.h>
#include <string.h>
#include <sys/select.h>
#ifndef MAXS
#define MAXS 9000
#endif
static int fd_ = 7;
#define FD fd_
static unsigned char S[MAXS]; static unsigned T, pos, ended; // the stream, its length, the read position
static int hard;          // 0: end of file at the end of the stream, else the error number
static int chunks, intrs; // how many reads are cut short / interrupted
static unsigned reads;
static unsigned unit;     // 0: as many bytes as wanted, else at most so many per read
static unsigned burst, burst_at, burst_kind; // so many interruptions in a row when the stream is at burst_at
ssize_t sx_read(int fd, void *b, size_t n) {
  CHECK(fd == FD, "a wrong descriptor is read"); reads++;
  if (fd < 0) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (intrs > 0 && sx_choose(2, "interrupted")) { intrs--; errno = sx_choose(2, "errno") ? EINTR : EAGAIN; symx_mark("interrupted"); return -1; }
  if (burst && pos >= burst_at) { burst--; errno = burst_kind == 0 ? EINTR : burst_kind == 1 ? EAGAIN : burst & 1 ? EINTR : EAGAIN; symx_mark("interrupted"); return -1; }
  if (pos == T) { ended = 1; if (!hard) { symx_mark("eof"); return 0; } errno = hard; symx_mark("error"); return -1; }
  unsigned k = T - pos; if (k > n) k = (unsigned)n;
  if (unit && k > unit) k = unit;
  if (k > 1 && chunks > 0) { unsigned c = sx_choose(k, "piece"); if (c) { chunks--; k = c; symx_mark("partial"); } }
  memcpy(b, S + pos, k); pos += k; return (ssize_t)k;
}
int sx_select(int n, void *rd) {
  if (!rd) return 0;
  if (FD < 0 || FD >= FD_SETSIZE) { errno = EBADF; return -1; } // not possible without an access outside of the set
  CHECK(n > FD && FD_ISSET(FD, (fd_set *)rd), "waiting for something else than the descriptor");
  if (intrs > 0 && sx_choose(2, "select interrupted")) { intrs--; errno = EINTR; return -1; }
  return 1;
}
static void end_of_stream(void) { // what happens at the end of the stream: end of file or any error that is not transient
  if (!sx_choose(2, "end")) { hard = 0; return; }
  unsigned char e = sx_u8("error"); symx_assume(e >= 1 && e <= 133 && e != EINTR && e != EAGAIN); hard = e;
}
#endif
