/* Preloaded into a worker: counts the operations that change files and, at a chosen one, ends the process
 * (possibly with half of the operation done), makes it fail, or waits.  SCC_FAULT=<kind>:<n>[:<ms>] */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

enum { NONE, CRASH, HALF, ONCE, FULL, SLEEP };
static int kind = NONE, hit = 0;
static long at = 0, count = 0, ms = 0;

__attribute__((constructor)) static void setup(void) {
  const char *s = getenv("SCC_FAULT");
  char k[16];
  if (!s || sscanf(s, "%15[a-z]:%ld:%ld", k, &at, &ms) < 2) return;
  kind = !strcmp(k, "crash") ? CRASH : !strcmp(k, "half") ? HALF : !strcmp(k, "once") ? ONCE : !strcmp(k, "full") ? FULL : !strcmp(k, "sleep") ? SLEEP : NONE;
}

static void die(void) { syscall(SYS_exit_group, 77); }

/* 0: go on; 1: do half of it, then die; -1: fail */
static int step(void) {
  if (kind == NONE) return 0;
  count++;
  if (count < at) return 0;
  if (count > at && kind != FULL) return 0;
  hit = 1;
  switch (kind) {
    case CRASH: die();
    case HALF: return 1;
    case SLEEP: { struct timespec t = {ms / 1000, ms % 1000 * 1000000L}; nanosleep(&t, 0); return 0; }
    default: errno = ENOSPC; return -1;
  }
}

/* reported on stderr's place: the exit code of the worker tells whether the fault was reached */
int scc_fault_hit(void) { return hit; }

static int do_open(int dir, const char *p, int flags, mode_t mode) {
  if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
    int s = step();
    if (s < 0) return -1;
    if (s > 0) die();
  }
  return syscall(SYS_openat, dir, p, flags, mode);
}
#define MODE(last) mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, last); mode = va_arg(l, mode_t); va_end(l); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags | O_LARGEFILE, mode); }

ssize_t write(int fd, const void *b, size_t n) {
  if (fd > 2) {
    int s = step();
    if (s < 0) return -1;
    if (s > 0) {
      /* a handful of bytes is written whole or not at all */
      if (n > 64) syscall(SYS_write, fd, b, n / 2);
      die();
    }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  int s = step();
  if (s < 0) return -1;
  if (s > 0) { if (n > 64) syscall(SYS_pwrite64, fd, b, n / 2, o); die(); }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
  int s = step();
  if (s < 0) return -1;
  if (s > 0) {
    struct stat st;
    if (!fstat(in, &st)) syscall(SYS_copy_file_range, in, io, out, oo, (size_t)st.st_size / 2, fl);
    die();
  }
  return syscall(SYS_copy_file_range, in, io, out, oo, n, fl);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  int s = step();
  if (s < 0) return -1;
  if (s > 0) {
    struct stat st;
    if (!fstat(in, &st)) syscall(SYS_sendfile, out, in, o, (size_t)st.st_size / 2);
    die();
  }
  return syscall(SYS_sendfile, out, in, o, n);
}
#define WHOLE int s = step(); if (s < 0) return -1; if (s > 0) die();
int rename(const char *a, const char *b) { WHOLE return syscall(SYS_rename, a, b); }
int unlink(const char *a) { WHOLE return syscall(SYS_unlink, a); }
int link(const char *a, const char *b) { WHOLE return syscall(SYS_link, a, b); }
int mkdir(const char *a, mode_t m) { WHOLE return syscall(SYS_mkdir, a, m); }
int ftruncate64(int fd, off_t n) { WHOLE return syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { WHOLE return syscall(SYS_ftruncate, fd, n); }
int fsync(int fd) { return 0; }
int fdatasync(int fd) { return 0; }
int fchmod(int fd, mode_t m) { WHOLE return syscall(SYS_fchmod, fd, m); }
