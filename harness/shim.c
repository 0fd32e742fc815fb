// shim.c - LD_PRELOAD stand-in between the tool and the system: a virtual clock, a count of
// every clock and file-system call, and one injected event (signal, crash, torn or failing
// write, clock jump) at a chosen call.  Environment:
//   ZS_START   0: count from the start; 1: count once a SIGINT handler is installed;
//              2: count once a file named ZS_PATH* is first touched
//   ZS_PATH    only file events on paths with this prefix count (ZS_CLOCK=0: clock does not count)
//   ZS_AT, ZS_AT2, ZS_MODE   the event number(s) and what happens there:
//     int (SIGINT before the call), crash (killed before the call), torn (a prefix of
//     ZS_TORN bytes of the write, then killed), full (this and all later writes fail),
//     jump (the clock advances by 1e6 s before the call)
//   ZS_LOG     file the events are listed in
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>
static long gN = 0, gAt = -1, gAt2 = -1, gTorn = 0;
static int gOn = 0, gFull = 0, gLog = -1, gClockEv = 1, gInit = 0, gStart = 0, gTraceAll = 0;
static const char *gMode = "", *gPath = NULL;
static long long gUs = 1000000000LL * 1000, gStep = 1000;
static char gWatch[1024];
static void init(void) {
  if (gInit) return;
  gInit = 1;
  const char *e;
  if ((e = getenv("ZS_AT"))) gAt = atol(e);
  if ((e = getenv("ZS_AT2"))) gAt2 = atol(e);
  if ((e = getenv("ZS_TORN"))) gTorn = atol(e);
  if ((e = getenv("ZS_MODE"))) gMode = strdup(e);
  if ((e = getenv("ZS_PATH"))) gPath = strdup(e);
  if ((e = getenv("ZS_CLOCK"))) gClockEv = atoi(e);
  if ((e = getenv("ZS_STEP"))) gStep = atoll(e);
  if ((e = getenv("ZS_START"))) gStart = atoi(e);
  gOn = gStart == 0;
  if ((e = getenv("ZS_LOG"))) gLog = syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
  unsetenv("LD_PRELOAD");     // children run without it
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) {} }
static void logev(const char *what, const char *arg, long n) {
  if (gLog < 0) return;
  char b[512];
  int l = snprintf(b, sizeof b, "%ld %s %s %ld\n", gN, what, arg ? arg : "-", n);
  if (syscall(SYS_write, gLog, b, l) < 0) {}
}
// 1: the caller must make this write torn; 2: it must fail
static int event(const char *what, const char *arg, long n) {
  if (!gOn) return 0;
  gN++;
  logev(what, arg, n);
  if (gN == gAt || gN == gAt2) {
    if (!strcmp(gMode, "int")) raise(SIGINT);
    else if (!strcmp(gMode, "jump")) gUs += 1000000LL * 1000000LL;
    else if (!strcmp(gMode, "crash")) die();
    else if (!strcmp(gMode, "torn")) return 1;
    else if (!strcmp(gMode, "full")) gFull = 1;
  }
  return gFull ? 2 : 0;
}
static int mine(const char *p) {
  if (!p) return 0;
  const char *b = strrchr(p, '/');
  b = b ? b + 1 : p;
  if (!gPath) return 1;
  if (strncmp(b, gPath, strlen(gPath))) return 0;
  if (gStart == 2) gOn = 1;
  return 1;
}
#define REAL(t, name) static t (*real)() = NULL; if (!real) real = (t (*)())dlsym(RTLD_NEXT, name); init();
int gettimeofday(struct timeval *tv, void *z) {
  init();
  if (gClockEv) event("clock", NULL, 0);
  gUs += gStep;
  tv->tv_sec = gUs / 1000000;
  tv->tv_usec = gUs % 1000000;
  return 0;
}
int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  REAL(int, "sigaction");
  int r = real(s, a, o);
  if (s == SIGINT && a && gStart == 1) gOn = 1;
  return r;
}
void (*signal(int s, void (*h)(int)))(int) {
  static void (*(*real)(int, void (*)(int)))(int) = NULL;
  if (!real) *(void **)&real = dlsym(RTLD_NEXT, "signal");
  init();
  void (*r)(int) = real(s, h);
  if (s == SIGINT && gStart == 1) gOn = 1;
  return r;
}
static void opened(int fd, const char *p, int mode) {
  if (fd >= 0 && fd < 1024) gWatch[fd] = mode && mine(p);
}
static int fileEvent(const char *what, const char *p, long n) { return mine(p) ? event(what, p, n) : 0; }
FILE *fopen(const char *p, const char *m) {
  REAL(FILE *, "fopen");
  int w = strpbrk(m, "wa+") != NULL;
  if (w && fileEvent("fopen", p, 0) == 1) die();
  FILE *f = real(p, m);
  if (f) opened(fileno(f), p, w);
  return f;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int open(const char *p, int fl, ...) {
  REAL(int, "open");
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  int w = (fl & O_ACCMODE) != O_RDONLY;
  if (w && fileEvent("open", p, fl) == 1) die();
  int fd = real(p, fl, mode);
  opened(fd, p, w);
  return fd;
}
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
static char gFdName[32];
static const char *fdn(int fd) { snprintf(gFdName, sizeof gFdName, "fd%d", fd); return gFdName; }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write");
  if (fd > 2 && fd < 1024 && gWatch[fd]) {
    int a = event("write", fdn(fd), n);
    if (a == 1) { if (gTorn > 0) real(fd, b, (size_t)gTorn < n ? (size_t)gTorn : n); die(); }
    if (a == 2) { errno = ENOSPC; return -1; }
  }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd > 2 && fd < 1024 && gWatch[fd]) {
    size_t n = 0; ssize_t r = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *buf = malloc(n + 1);
    n = 0;
    for (int i = 0; i < c; i++) { memcpy(buf + n, v[i].iov_base, v[i].iov_len); n += v[i].iov_len; }
    r = write(fd, buf, n);
    free(buf);
    return r;
  }
  REAL(ssize_t, "writev");
  return real(fd, v, c);
}
int fclose(FILE *f) {
  REAL(int, "fclose");
  int fd = f ? fileno(f) : -1;
  if (fd > 2 && fd < 1024 && gWatch[fd]) { event("fclose", fdn(fd), 0); gWatch[fd] = 0; }
  return real(f);
}
int close(int fd) {
  REAL(int, "close");
  if (fd > 2 && fd < 1024 && gWatch[fd]) { event("close", fdn(fd), 0); gWatch[fd] = 0; }
  return real(fd);
}
int fsync(int fd) { REAL(int, "fsync"); if (fd > 2 && fd < 1024 && gWatch[fd]) event("fsync", fdn(fd), 0); return real(fd); }
int rename(const char *a, const char *b) {
  REAL(int, "rename");
  int c = mine(a) | mine(b);
  if (c && event("rename", a, 0) == 1) die();
  return real(a, b);
}
int link(const char *a, const char *b) {
  REAL(int, "link");
  int c = mine(a) | mine(b);
  if (c && event("link", a, 0) == 1) die();
  return real(a, b);
}
int unlink(const char *a) { REAL(int, "unlink"); if (fileEvent("unlink", a, 0) == 1) die(); return real(a); }
int remove(const char *a) { REAL(int, "remove"); if (fileEvent("remove", a, 0) == 1) die(); return real(a); }
int truncate(const char *a, off_t n) { REAL(int, "truncate"); if (fileEvent("truncate", a, n) == 1) die(); return real(a, n); }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate"); if (fd > 2 && fd < 1024 && gWatch[fd]) event("ftruncate", fdn(fd), n); return real(fd, n); }
// a command line run by the shell is one call before and one after (what it does inside
// is not split further)
int system(const char *c) {
  REAL(int, "system");
  int m = gPath == NULL || (c && strstr(c, gPath) != NULL);
  if (m && gStart == 2) gOn = 1;
  if (m && event("system", "before", 0) == 1) die();
  int r = real(c);
  if (m && event("system", "after", 0) == 1) die();
  return r;
}
