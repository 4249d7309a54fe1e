/* LD_PRELOAD: ends the process (SIGKILL) at the nth operation that changes a
   file. crash_arm(n, torn) arms the process that calls it, not its children;
   with torn, half of the bytes of the nth write are written first. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static pid_t armed;
static long at, count;
static int torn;

void crash_arm(long n, int t) { armed = getpid(); at = n; torn = t; count = 0; }
long crash_count(void) { return count; }

static int hit(void) { return armed && getpid() == armed && ++count == at; }
static int regular(int fd) {
  struct stat s;
  return armed && fstat(fd, &s) == 0 && S_ISREG(s.st_mode);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (regular(fd) && hit()) { if (torn && n > 1) real(fd, b, n / 2); die(); }
  return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite);
  if (regular(fd) && hit()) { if (torn && n > 1) real(fd, b, n / 2, o); die(); }
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  if (regular(fd) && hit()) { if (torn && n > 1) real(fd, b, n / 2, o); die(); }
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(writev);
  if (regular(fd) && hit()) die();
  return real(fd, v, n);
}
int ftruncate(int fd, off_t n) {
  REAL(ftruncate);
  if (regular(fd) && hit()) die();
  return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
  REAL(ftruncate64);
  if (regular(fd) && hit()) die();
  return real(fd, n);
}
int rename(const char *a, const char *b) {
  REAL(rename);
  if (hit()) die();
  return real(a, b);
}
int unlink(const char *a) {
  REAL(unlink);
  if (hit()) die();
  return real(a);
}
int rmdir(const char *a) {
  REAL(rmdir);
  if (hit()) die();
  return real(a);
}
static int makes(const char *p, int f) {
  return (f & (O_CREAT | O_TRUNC)) && hit();
}
int open(const char *p, int f, ...) {
  va_list l; va_start(l, f); int m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(l, int) : 0; va_end(l);
  REAL(open);
  if (makes(p, f)) die();
  return real(p, f, m);
}
int open64(const char *p, int f, ...) {
  va_list l; va_start(l, f); int m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(l, int) : 0; va_end(l);
  REAL(open64);
  if (makes(p, f)) die();
  return real(p, f, m);
}
