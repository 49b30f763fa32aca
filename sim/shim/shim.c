/* Preloaded into the real sample_s2 program: the random source, standard output, clock and
   allocator it sees are decided by the plan in a shared mapping (fd 200). Nothing here draws
   randomness or reads a real clock. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_WRITE, OP_GETRANDOM, OP_OPEN, OP_READ, OP_POLL, OP_ALLOC, OP_FLUSHLIKE, NOPS };
enum { K_SHORT = 1, K_ERR = 2, K_ERR_FOREVER = 3, K_ZERO = 4, K_KILL = 5, K_SLOW = 6 };
#define MAXF 512
#define OUT_OFF 65536
#define ERR_CAP 4096
struct fault { uint32_t op, idx, kind, arg; };
struct plan {
  uint64_t magic, entropy, entropy_mode, clock, out_cap;
  uint32_t nfaults, pad;
  uint64_t count[NOPS];
  uint64_t fired[MAXF];
  uint64_t out_len, err_len, consumed, stuck, hard_entropy, hard_entropy_at, faults_total;
  struct fault f[MAXF];
  char err[ERR_CAP];
};
static struct plan *P;
static ino_t out_ino;
static dev_t out_dev;
static int urandom_fd = -1, random_fd = -1;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
/* Waiting with a deadline (std's futexes) goes by the simulated clock, which passes while waiting. */
long syscall(long n, ...) {
  va_list l;
  va_start(l, n);
  long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long);
  va_end(l);
  if (P && n == SYS_futex && (b & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET && d) {
    struct timespec *t = (void *)d, ms = {0, 1000000};
    uint64_t until = t->tv_sec * 1000000000ull + t->tv_nsec;
    while (P->clock < until) {
      long r = raw(SYS_futex, a, FUTEX_WAIT | (b & FUTEX_PRIVATE_FLAG), c, (long)&ms, 0, 0);
      if (r == 0 || errno != ETIMEDOUT) return r;
      __atomic_fetch_add(&P->clock, 1000000, __ATOMIC_SEQ_CST);
    }
    errno = ETIMEDOUT;
    return -1;
  }
  return raw(n, a, b, c, d, e, f);
}
static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
__attribute__((constructor)) static void start(void) {
  void *m = mmap(0, sizeof(struct plan), PROT_READ | PROT_WRITE, MAP_SHARED, 200, 0);
  if (m == MAP_FAILED) return;
  struct plan *p = m;
  if (p->magic != 0x67656f73696d0001ull) return;
  uint64_t cap = p->out_cap;
  munmap(m, sizeof(struct plan));
  m = mmap(0, OUT_OFF + cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, 200, 0);
  if (m == MAP_FAILED) return;
  struct stat st;
  if (syscall(SYS_fstat, 1, &st)) return;
  out_ino = st.st_ino;
  out_dev = st.st_dev;
  P = m;
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) ; }
/* the fault for this call of op, or null */
static struct fault *next(int op) {
  uint64_t n = P->count[op]++;
  for (uint32_t i = 0; i < P->nfaults; i++) {
    struct fault *f = &P->f[i];
    if (f->op != (uint32_t)op) continue;
    if (f->idx == n || (f->kind == K_ERR_FOREVER && n >= f->idx)) {
      P->fired[i]++;
      P->faults_total++;
      if (P->fired[i] > 100000) { P->stuck = 1; die(); }
      if (f->kind == K_KILL) die();
      /* an entropy failure that is not an interruption, and how much had been handed out by then */
      if ((op == OP_GETRANDOM || op == OP_OPEN || op == OP_READ || op == OP_POLL) && f->kind != K_SHORT
          && !(f->kind == K_ERR && f->arg == EINTR) && !P->hard_entropy) {
        P->hard_entropy = 1;
        P->hard_entropy_at = P->consumed;
      }
      return f;
    }
  }
  return 0;
}
static int is_out(int fd) {
  struct stat st;
  if (!P || fd < 0) return 0;
  if (syscall(SYS_fstat, fd, &st)) return 0;
  return st.st_ino == out_ino && st.st_dev == out_dev;
}
static void put(const void *b, size_t n) {
  if (P->out_len + n > P->out_cap) die();
  memcpy((char *)P + OUT_OFF + P->out_len, b, n);
  P->out_len += n;
}
static ssize_t out_write(const struct iovec *v, int nv) {
  size_t total = 0;
  for (int i = 0; i < nv; i++) total += v[i].iov_len;
  struct fault *f = total ? next(OP_WRITE) : 0;
  size_t lim = total;
  if (f) {
    if (f->kind == K_ZERO) return 0;
    if (f->kind == K_SLOW) {
      /* so many seconds of simulated time, and long enough for other threads to notice */
      struct timespec ms = {0, 3000000};
      __atomic_fetch_add(&P->clock, f->arg * 1000000000ull, __ATOMIC_SEQ_CST);
      raw(SYS_nanosleep, (long)&ms, 0, 0, 0, 0, 0);
    }
    if (f->kind == K_ERR || f->kind == K_ERR_FOREVER) {
      if (f->arg == EPIPE) syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), SIGPIPE);
      errno = f->arg;
      return -1;
    }
    if (f->kind == K_SHORT) {
      lim = f->arg;
      if (lim >= total) lim = total - 1;
      if (lim == 0) lim = 1;
    }
  }
  size_t left = lim;
  for (int i = 0; i < nv && left; i++) {
    size_t n = v[i].iov_len < left ? v[i].iov_len : left;
    put(v[i].iov_base, n);
    left -= n;
  }
  return lim;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (P && is_out(fd)) {
    struct iovec v = {(void *)b, n};
    return out_write(&v, 1);
  }
  if (P && fd == 2) {
    size_t k = n;
    if (P->err_len + k > ERR_CAP) k = ERR_CAP - P->err_len;
    memcpy(P->err + P->err_len, b, k);
    P->err_len += k;
    return n;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int nv) {
  if (P && is_out(fd)) return out_write(v, nv);
  if (P && fd == 2) {
    ssize_t t = 0;
    for (int i = 0; i < nv; i++) t += write(2, v[i].iov_base, v[i].iov_len);
    return t;
  }
  return syscall(SYS_writev, fd, v, nv);
}
static void entropy(uint8_t *b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    uint64_t k = P->consumed++;
    switch (P->entropy_mode) {
    case 1: b[i] = 0; break;
    case 2: b[i] = 0xff; break;
    case 3: b[i] = (uint8_t)(P->entropy + k); break;
    default: b[i] = (uint8_t)(mix(P->entropy ^ mix(k / 8)) >> (8 * (k % 8)));
    }
  }
}
static ssize_t give(int op, void *b, size_t n) {
  struct fault *f = next(op);
  if (f) {
    if (f->kind == K_ERR || f->kind == K_ERR_FOREVER) { errno = f->arg; return -1; }
    if (f->kind == K_ZERO) { if (n) return 0; }
    else if (f->kind == K_SHORT && n > 1) { n = f->arg < n ? (f->arg ? f->arg : 1) : n - 1; }
  }
  entropy(b, n);
  return n;
}
/* The Rust standard library and the getrandom crate ask with flags 0; glibc's own allocator asks
   the kernel directly and is not concerned. */
ssize_t getrandom(void *b, size_t n, unsigned flags) {
  if (!P) return syscall(SYS_getrandom, b, n, flags);
  return give(OP_GETRANDOM, b, n);
}
int getentropy(void *b, size_t n) {
  if (!P) return syscall(SYS_getrandom, b, n, 0) == (ssize_t)n ? 0 : -1;
  while (n) {
    ssize_t k = give(OP_GETRANDOM, b, n);
    if (k < 0) return -1;
    b = (char *)b + k;
    n -= k;
  }
  return 0;
}
static int do_open(const char *path, int flags, int mode) {
  int u = !strcmp(path, "/dev/urandom"), r = !strcmp(path, "/dev/random");
  if (P && (u || r)) {
    struct fault *f = next(OP_OPEN);
    if (f && (f->kind == K_ERR || f->kind == K_ERR_FOREVER)) { errno = f->arg; return -1; }
    int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | (flags & O_CLOEXEC), 0);
    if (u) urandom_fd = fd; else random_fd = fd;
    return fd;
  }
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
#define OPEN_BODY int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *path, int flags, ...) { OPEN_BODY return do_open(path, flags, mode); }
int open64(const char *path, int flags, ...) { OPEN_BODY return do_open(path, flags, mode); }
ssize_t read(int fd, void *b, size_t n) {
  if (P && fd >= 0 && (fd == urandom_fd || fd == random_fd)) return give(OP_READ, b, n);
  return syscall(SYS_read, fd, b, n);
}
int close(int fd) {
  if (fd >= 0 && fd == urandom_fd) urandom_fd = -1;
  if (fd >= 0 && fd == random_fd) random_fd = -1;
  return syscall(SYS_close, fd);
}
int poll(struct pollfd *p, nfds_t n, int t) {
  if (P && n == 1 && p[0].fd >= 0 && (p[0].fd == random_fd || p[0].fd == urandom_fd)) {
    struct fault *f = next(OP_POLL);
    if (f && (f->kind == K_ERR || f->kind == K_ERR_FOREVER)) { errno = f->arg; return -1; }
    p[0].revents = POLLIN;
    return 1;
  }
  return syscall(SYS_poll, p, n, t);
}
/* clocks: simulated, one millisecond per read */
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!P) return syscall(SYS_clock_gettime, c, t);
  P->clock += 1000000;
  t->tv_sec = P->clock / 1000000000ull;
  t->tv_nsec = P->clock % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  (void)z;
  struct timespec s;
  clock_gettime(0, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(0, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  (void)b;
  if (P) P->clock += a->tv_sec * 1000000000ull + a->tv_nsec;
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  (void)c; (void)fl;
  return nanosleep(a, b);
}
pid_t getpid(void) { return P ? 4242 : syscall(SYS_getpid); }
/* allocator */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int no_memory(void) {
  if (!P) return 0;
  struct fault *f = next(OP_ALLOC);
  return f && (f->kind == K_ERR || f->kind == K_ERR_FOREVER);
}
void *malloc(size_t n) { if (no_memory()) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (no_memory()) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (no_memory()) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { if (no_memory()) { errno = ENOMEM; return 0; } return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) {
  void *p = memalign(a, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
