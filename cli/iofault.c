// Preloaded into the command line tool: file faults on the files below NFT_SIM_IO_DIR, decided by the simulator's seed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
static char tracked[4096]; static const char *dir; static uint64_t state; static long eio_at, short_on, space = -1, nread, nshort, neio, nspace; static int ready;
static void init(void) {
  if (ready) return; ready = 1; dir = getenv("NFT_SIM_IO_DIR"); const char *s;
  if ((s = getenv("NFT_SIM_IO_SHORT"))) { short_on = 1; state = strtoull(s, 0, 10) * 2862933555777941757ULL + 3037000493ULL; }
  if ((s = getenv("NFT_SIM_IO_EIO"))) eio_at = atol(s);
  if ((s = getenv("NFT_SIM_IO_SPACE"))) space = atol(s);
}
static uint64_t rnd(void) { state = state * 6364136223846793005ULL + 1442695040888963407ULL; return state >> 33; }
static int note(int fd, const char *p) { init(); if (fd >= 0 && fd < 4096) tracked[fd] = dir && (strncmp(p, dir, strlen(dir)) == 0 || (p[0] != '/' && p[0] != '.')); // the tool runs inside that directory
  return fd; }
#define REAL(n) static __typeof__(&n) real; if (!real) real = (__typeof__(&n))dlsym(RTLD_NEXT, #n)
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, int); va_end(v); }
int open(const char *p, int fl, ...) { MODE REAL(open); return note(real(p, fl, m), p); }
int open64(const char *p, int fl, ...) { MODE REAL(open64); return note(real(p, fl, m), p); }
int openat(int d, const char *p, int fl, ...) { MODE REAL(openat); return note(real(d, p, fl, m), p); }
int openat64(int d, const char *p, int fl, ...) { MODE REAL(openat64); return note(real(d, p, fl, m), p); }
int close(int fd) { REAL(close); if (fd >= 0 && fd < 4096) tracked[fd] = 0; return real(fd); }
static int is(int fd) { return fd >= 0 && fd < 4096 && tracked[fd]; }
static int before(size_t *n) {
  nread++; if (eio_at && nread == eio_at) { neio++; errno = EIO; return -1; }
  if (short_on && *n > 1 && rnd() % 3) { size_t k = 1 + rnd() % (*n < 40 ? *n : 40); if (k < *n) { nshort++; *n = k; } }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (is(fd) && before(&n)) return -1; return real(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); if (is(fd) && before(&n)) return -1; return real(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) { REAL(readv); if (is(fd) && c > 0) return read(fd, v[0].iov_base, v[0].iov_len); return real(fd, v, c); }
static int room(size_t *n) { if (space < 0) return 0; if (space == 0) { nspace++; errno = ENOSPC; return -1; } if (*n > (size_t)space) { *n = space; nspace++; } space -= *n; return 0; }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (is(fd) && room(&n)) return -1; return real(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); if (is(fd) && c > 0) return write(fd, v[0].iov_base, v[0].iov_len); return real(fd, v, c); }
__attribute__((destructor)) static void fini(void) {
  const char *s = getenv("NFT_SIM_IO_LOG"); if (!s) return; FILE *f = fopen(s, "w"); if (!f) return; fprintf(f, "%ld %ld %ld\n", nshort, neio, nspace); fclose(f);
}
