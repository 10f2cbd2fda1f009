// Read errors at a chosen byte of a chosen file: fopen() hands out a stream
// over a cookie, read() (which std::ifstream calls) fails on that file's
// descriptor.  Chosen by IoFault() or, in the program, by the environment.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include "ioshim.h"

static bool on; static dev_t dev; static ino_t ino; static long at; static bool once; static long fired;
extern "C" void IoFault(const char *path, long pos, int one) {
  struct stat st; on = false; fired = 0; if (!path) return; if (stat(path, &st)) { fprintf(stderr, "harness: %s\n", path); _exit(98); }
  dev = st.st_dev; ino = st.st_ino; at = pos; once = one; on = true;
}
extern "C" long IoFired() { return fired; }
__attribute__((constructor)) static void FromEnv() { const char *p = getenv("VERIF_IO_PATH"); if (p) IoFault(p, atol(getenv("VERIF_IO_AT")), atoi(getenv("VERIF_IO_ONCE"))); }
static bool Target(int fd) { struct stat st; return on && fstat(fd, &st) == 0 && st.st_dev == dev && st.st_ino == ino && S_ISREG(st.st_mode); }
// bytes that may be read at `pos`; -1: fail now
static long Allowed(long pos, size_t n) { if (once && fired) return (long)n; long k = at - pos; if (k <= 0) { if (pos > at && once) return (long)n; ++fired; return -1; } return k < (long)n ? k : (long)n; }
static ssize_t (*RealRead())(int, void *, size_t) { static ssize_t (*f)(int, void *, size_t); if (!f) f = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read"); return f; }

struct Cookie { int fd; long pos; };
static ssize_t CRead(void *c, char *b, size_t n) { Cookie *k = (Cookie *)c; long m = Allowed(k->pos, n); if (m < 0) { errno = EIO; return -1; } ssize_t g = pread(k->fd, b, m, k->pos); if (g > 0) k->pos += g; return g; }
static int CSeek(void *c, off64_t *o, int w) { Cookie *k = (Cookie *)c; struct stat st; fstat(k->fd, &st); long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? k->pos : st.st_size; if (b + *o < 0) { errno = EINVAL; return -1; } k->pos = b + *o; *o = k->pos; return 0; }
static int CClose(void *c) { Cookie *k = (Cookie *)c; int r = close(k->fd); free(k); return r; }

extern "C" FILE *fopen(const char *path, const char *mode) {
  static FILE *(*real)(const char *, const char *); if (!real) real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
  Dl_info who;   // std::ifstream opens with fopen() but reads the descriptor
  if (dladdr(__builtin_return_address(0), &who) && who.dli_fname && strstr(who.dli_fname, "libstdc++")) return real(path, mode);
  if (on && mode[0] == 'r' && !strchr(mode, '+')) {
    int fd = open(path, O_RDONLY | O_CLOEXEC);
    if (fd >= 0) { if (Target(fd)) { Cookie *k = (Cookie *)malloc(sizeof(Cookie)); k->fd = fd; k->pos = 0; cookie_io_functions_t f; f.read = CRead; f.write = nullptr; f.seek = CSeek; f.close = CClose; return fopencookie(k, mode, f); } close(fd); }
  }
  return real(path, mode);
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
  if (on && Target(fd)) { long pos = lseek(fd, 0, SEEK_CUR), m = Allowed(pos, n); if (m < 0) { errno = EIO; return -1; } return RealRead()(fd, b, m); }
  return RealRead()(fd, b, n);
}
