/* Files opened for writing, and standard output, on a disk that refuses one write and takes all others.
   Linked with --wrap=fopen. flaky_at, or MC_FLAKY in the environment, is the number of the refused write. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int flaky_at = -1;
int flaky_hit = 0; /* whether the write was refused */
static int writes;

FILE *__real_fopen(const char *, const char *);
static ssize_t put(void *c, const char *b, size_t n) {
  size_t done = 0;
  if (writes++ == flaky_at) {
    flaky_hit = 1;
    errno = ENOSPC;
    return 0;
  }
  while (done < n) {
    ssize_t r = write((int)(long)c, b + done, n - done);
    if (r <= 0)
      return 0;
    done += r;
  }
  return done;
}
static int seek(void *c, off64_t *to, int how) {
  off_t r = lseek((int)(long)c, *to, how);
  if (r < 0)
    return -1;
  *to = r;
  return 0;
}
static int shut(void *c) { return close((int)(long)c); }
static FILE *flaky(int fd) {
  static char small[8][128]; /* many writes also for short files; glibc ignores a size without a buffer */
  static unsigned next;
  cookie_io_functions_t io = {NULL, put, seek, shut};
  FILE *f = fopencookie((void *)(long)fd, "w", io);
  if (f)
    setvbuf(f, small[next++ % 8], _IOFBF, sizeof small[0]);
  return f;
}
FILE *__wrap_fopen(const char *name, const char *mode) {
  int fd;
  if (flaky_at < 0 || mode[0] != 'w' || strchr(mode, '+'))
    return __real_fopen(name, mode);
  fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0666);
  writes = 0;
  return fd < 0 ? NULL : flaky(fd);
}
__attribute__((constructor)) static void start(void) {
  const char *e = getenv("MC_FLAKY");
  if (!e)
    return;
  flaky_at = atoi(e);
  if (getenv("MC_FLAKY_STDOUT"))
    stdout = flaky(1);
}
