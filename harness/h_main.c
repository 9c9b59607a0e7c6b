// The command line reader (examples/sml_server.c) as a whole: arguments, device, line settings, and what it prints for a stream of two transmissions.
// The program's main is called server_main, its exit, getopt and terminal functions are the ones below.
#define MAXENC 3000
#include "model.h"
#include "capture.h"
#define MAXS 1000
#include "env.h"
#include <termios.h>
#include <sys/ioctl.h>
#include <fcntl.h>
extern int server_main(int, char **);
void server_exit(int c); int m_getopt(int n, char *const *v, const char *o); int m_optind = 1, m_opterr = 1, m_optopt; char *m_optarg;
static const char *nxt;
int m_getopt(int n, char *const *v, const char *o) { // the first argument that is no option ends the options
  m_optarg = 0; if (*o == '+' || *o == '-') o++;
  if (!nxt || !*nxt) { if (m_optind >= n || v[m_optind][0] != '-' || !v[m_optind][1]) return -1; if (v[m_optind][1] == '-' && !v[m_optind][2]) { m_optind++; return -1; } nxt = v[m_optind] + 1; }
  int c = (unsigned char)*nxt++; if (!*nxt) m_optind++; for (; *o; o++) if (*o == c) return c; m_optopt = c; errs++; return '?';
}
static int dev, opened, closed, fails, raw, rts, wantdev; static char *path; static struct termios t0; static int bits0;
static int sflag, vflag, expect_exit; // what the arguments ask for: exit status, or -1: reading
static unsigned w1;                   // what is printed for the first transmission only
static gen g; static toks W0; static unsigned lines;
int sx_open(const char *p, int f) { CHECK(!opened && wantdev && !strcmp(p, path), "a wrong device is opened"); CHECK((f & O_ACCMODE) != O_WRONLY, "the device is opened for writing only"); opened = 1; if (fails) { errno = 13; return -1; } FD = dev; return dev; }
int sx_close(int fd) { CHECK(fd == FD, "a wrong descriptor is closed"); closed++; return 0; }
int m_ioctl(int fd, unsigned long r, int *b) { CHECK(fd == dev && opened, "the line of a wrong descriptor is changed"); if (r == TIOCMGET) *b = bits0; else if (r == TIOCMSET) { CHECK(*b == (bits0 | TIOCM_RTS), "the modem lines are set wrongly"); rts = 1; } else if (r == TIOCMBIS) { CHECK(*b == TIOCM_RTS, "the modem lines are set wrongly"); rts = 1; } else CHECK(0, "model: unexpected ioctl"); return 0; }
int m_tcgetattr(int fd, struct termios *t) { CHECK(fd == dev && opened, "the line of a wrong descriptor is changed"); *t = t0; return 0; }
int m_cfsetispeed(struct termios *t, speed_t s) { t->c_ispeed = s; t->c_cflag = (t->c_cflag & ~(tcflag_t)(CBAUD | CBAUDEX)) | s; return 0; }
int m_cfsetospeed(struct termios *t, speed_t s) { t->c_ospeed = s; t->c_cflag = (t->c_cflag & ~(tcflag_t)(CBAUD | CBAUDEX)) | s; return 0; }
int m_cfsetspeed(struct termios *t, speed_t s) { m_cfsetispeed(t, s); return m_cfsetospeed(t, s); }
void m_cfmakeraw(struct termios *t) { t->c_iflag &= ~(tcflag_t)(IGNBRK | BRKINT | PARMRK | ISTRIP | INLCR | IGNCR | ICRNL | IXON); t->c_oflag &= ~(tcflag_t)OPOST; t->c_lflag &= ~(tcflag_t)(ECHO | ECHONL | ICANON | ISIG | IEXTEN); t->c_cflag = (t->c_cflag & ~(tcflag_t)(CSIZE | PARENB)) | CS8; }
int m_tcflush(int fd, int q) { (void)fd; (void)q; return 0; }
int m_tcsetattr(int fd, int w_, const struct termios *t) {
  (void)w_; CHECK(fd == dev && opened, "the line of a wrong descriptor is changed");
  CHECK(!(t->c_iflag & (IGNBRK | BRKINT | PARMRK | ISTRIP | INLCR | IGNCR | ICRNL | IXON)), "the line translates or swallows received bytes"); CHECK(!(t->c_oflag & OPOST), "the line translates sent bytes");
  CHECK(!(t->c_lflag & (ECHO | ECHONL | ICANON | ISIG | IEXTEN)), "the line echoes, buffers or interprets bytes"); CHECK((t->c_cflag & CSIZE) == CS8 && !(t->c_cflag & (PARENB | CSTOPB)), "the line is not set to eight bits, no parity, one stop bit");
  CHECK(t->c_ispeed == B9600 && t->c_ospeed == B9600 && (t->c_cflag & (CBAUD | CBAUDEX)) == B9600, "the line is not set to 9600 baud"); raw = 1; return 0;
}
static void finish(int code) {
  if (expect_exit >= 0) { CHECK(code == expect_exit, "a wrong exit status"); CHECK(pos == 0, "something is read although the arguments are wrong"); if (fails && wantdev) { CHECK(errs > 0, "no error is reported"); CHECK(no == 0, "something else than the measured values is printed"); symx_mark("no device"); } else { CHECK(!opened, "a device is opened although the arguments are wrong"); CHECK(no > 0, "no usage is printed"); symx_mark("usage"); } symx_path_end(); }
  CHECK(code == 0, "a wrong exit status"); unsigned n = sflag && lines ? w1 : nw;
  if (wantdev) { CHECK(opened && raw && rts, "the line is not configured"); if (!sflag) CHECK(closed == 1, "the device is not closed"); }
  CHECK(no == n, "a wrong number of characters is printed");
  for (unsigned i = 0; i < n && i < no; i++) { CHECK(out[i].k == want[i].k && out[i].v == want[i].v, "something else than the measured values is printed"); if (out[i].k == 2) CHECK(out[i].d == want[i].d, "a wrong value is printed"); }
  if (!sflag || !lines) { CHECK(ended && pos == T, "reading ends before the end of the stream"); CHECK(symx_heap_live() == 0, "memory is still allocated after printing"); symx_mark("all"); } else symx_mark("single");
  symx_path_end();
}
void server_exit(int c) { finish(c); }
static void transmission(int list) { // one message: a list with one value, or a close response
  for (int i = 0; i < 8; i++) gb(&g, i < 4 ? 0x1b : 1);
  unsigned start = g.n; unsigned char nm[6], v = 0;
  if (list) {
    static const unsigned char H[] = {0x76, 2, 'x', 0x62, 0, 0x62, 0, 0x72, 0x63, 7, 1, 0x77, 1, 2, 's', 1, 1, 0x71, 0x77, 7}, M[] = {1, 1, 0x62, 30, 1, 0x62}; for (unsigned i = 0; i < sizeof H; i++) gb(&g, H[i]);
    for (int i = 0; i < 6; i++) { nm[i] = sx_u8("obis"); gb(&g, nm[i]); } for (unsigned i = 0; i < sizeof M; i++) gb(&g, M[i]); v = sx_u8("value"); gb(&g, v); gb(&g, 1); gb(&g, 1); gb(&g, 1); g_msgend(&g, start);
  } else { g.conc = 1; g.small = 1; g.t = &W0; W0.n = 0; g.crc = 0; g_message(&g, &MSG[3]); g.conc = 0; }
  unsigned pad = (4 - (g.n - start) % 4) % 4; for (unsigned i = 0; i < pad; i++) gb(&g, 0);
  for (unsigned i = start; i < g.n; i += 4) { unsigned d = (g.b[i] ^ 0x1bu) | (g.b[i + 1] ^ 0x1bu) | (g.b[i + 2] ^ 0x1bu) | (g.b[i + 3] ^ 0x1bu); symx_assume(d != 0); } // known finding of C21
  if (vflag) { ws("SML file ("); w(1, 1, 0); ws(" SML messages, "); w(1, (long)(g.n - start), 0); ws(" bytes)\nSML message "); w(1, list ? 0x701 : (long)MSG[3].tag, 0); ws("\nOBIS data\n"); }
  if (list) { for (int i = 0; i < 6; i++) { w(1, nm[i], 0); ws(i == 0 ? "-" : i == 1 ? ":" : i == 2 || i == 3 ? "." : i == 4 ? "*" : "#"); } w(2, 0, (double)v); ws("#Wh\n"); lines++; if (!w1) w1 = nw; }
  for (int i = 0; i < 4; i++) gb(&g, 0x1b); gb(&g, 0x1a); gb(&g, (unsigned char)pad); gb(&g, 0); gb(&g, 0);
}
void harness(void) {
  static char P[] = "/dev/ttyUSB0", *const A[][4] = {{"-"}, {P}, {"-s", P}, {"-v", "-"}, {"-sv", P}, {"-v", "-s", "-"}, {"--", P}, {"-s", "--", "-"}, {"-ss", "-"}, {0}, {P, P}, {"-h"}, {"-q", P}, {"-s"}, {P, "-s"}, {"-sh", P}, {"-vsx", "-"}};
  unsigned a = sx_choose(17, "arguments"); char *argv[6] = {"sml_server"}; int argc = 1; for (; argc < 5 && argc < 5 && A[a][argc - 1]; argc++) argv[argc] = A[a][argc - 1];
  sflag = a == 2 || a == 4 || a == 5 || a == 7 || a == 8; vflag = a == 3 || a == 4 || a == 5; wantdev = a == 1 || a == 2 || a == 4 || a == 6; expect_exit = a < 9 ? -1 : a == 11 || a == 15 ? 0 : 1; path = P; FD = 0; dev = 7;
  if (wantdev) { fails = (int)sx_choose(2, "open fails"); if (fails) expect_exit = 1; t0.c_iflag = sx_u32("iflag"); t0.c_oflag = sx_u32("oflag"); t0.c_lflag = sx_u32("lflag"); t0.c_cflag = sx_u32("cflag"); bits0 = (int)sx_u32("lines"); }
  unsigned k = sx_choose(4, "transmissions"); transmission(k & 1); transmission(k >> 1); memcpy(S, g.b, g.n); T = g.n; if (sx_choose(2, "end")) hard = 5;
  finish(server_main(argc, argv));
}
