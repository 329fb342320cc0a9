/* Seam between idlc and the operating system: every call that touches the file
 * system, the clock or the random source is announced to the simulator over
 * descriptor 198 and carried out only as the simulator decides. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define SIMFD 198
enum { GO = 0, FAIL = 1, LIMIT = 2, DIE = 3, DATA = 4 };
struct reply {
  int32_t act, len;
  int64_t arg;
  unsigned char data[64];
};

static int active;
static uint64_t clk_ns = 1600000000ull * 1000000000ull, clk_step = 1000, dirseed;
static char *simfds[4096]; /* path of every open file, as opposed to stdio and the socket */

static void die(void) {
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) syscall(SYS_pause);
}

static struct reply ask(const char *op, long fd, long a, long b, const char *path) {
  struct reply r;
  char buf[9000];
  memset(&r, 0, sizeof r);
  if (!active) return r;
  int e = errno;
  int n = snprintf(buf, sizeof buf, "%s|%ld|%ld|%ld|", op, fd, a, b);
  size_t pl = path ? strlen(path) : 0;
  if (pl > sizeof buf - 200) pl = sizeof buf - 200;
  memcpy(buf + n, path ? path : "", pl);
  for (;;) {
    long w = syscall(SYS_sendto, SIMFD, buf, n + pl, MSG_NOSIGNAL, 0, 0);
    if (w >= 0) break;
    if (errno != EINTR) die();
  }
  for (;;) {
    long w = syscall(SYS_recvfrom, SIMFD, &r, sizeof r, 0, 0, 0);
    if (w >= 16) break;
    if (w < 0 && errno == EINTR) continue;
    die();
  }
  if (r.act == DIE) die();
  errno = e;
  return r;
}

/* The heap of a process whose SIM_HEAP is set: where an allocation lies, whether
 * memory is reused and what it holds before it is written is the seed's choice. */
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t), *__libc_calloc(size_t, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
#define REGIONS 8
#define REGION (1ull << 30)
#define CLASSES 64
#define KEPT 16
struct head {
  uint32_t class, used;
  uint64_t cap;
};
static char *heap_base;
static uint64_t heap_rng, heap_at[REGIONS];
static struct {
  int n;
  void *p[KEPT];
} heap_free[CLASSES];
static int heap_lock;

static uint64_t heap_rand(void) {
  heap_rng ^= heap_rng << 13;
  heap_rng ^= heap_rng >> 7;
  heap_rng ^= heap_rng << 17;
  return heap_rng * 0x2545f4914f6cdd1dull >> 11;
}
static void heap_start(uint64_t seed) {
  char *b = mmap((void *)(0x100000000000ull + (seed % 1021 << 32)), REGIONS * REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (b == MAP_FAILED) _exit(122);
  heap_rng = seed * 0x9e3779b97f4a7c15ull | 1;
  for (int i = 0; i < REGIONS; i++) heap_at[i] = i * REGION + (heap_rand() % 4096) * 16;
  heap_base = b;
}
static int on_heap(void *p) { return heap_base && (char *)p >= heap_base && (char *)p < heap_base + REGIONS * REGION; }
static void *heap_alloc(size_t n, size_t al) {
  unsigned c = 0;
  uint64_t cap = 16;
  char *p = 0;
  if (n > REGION / 2) return 0;
  while (cap < n) cap += c++ % 2 ? cap / 3 / 16 * 16 + 16 : (cap / 2 + 15) / 16 * 16;
  while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) {}
  if (al <= 16 && heap_free[c].n && heap_rand() % 2) {
    int i = (int)(heap_rand() % heap_free[c].n);
    p = heap_free[c].p[i];
    heap_free[c].p[i] = heap_free[c].p[--heap_free[c].n];
  } else {
    unsigned r = (unsigned)(heap_rand() % REGIONS);
    for (int k = 0; k < REGIONS && !p; k++, r = (r + 1) % REGIONS) {
      uint64_t a = (heap_at[r] + 16 + (heap_rand() % 4) * 16 + al - 1) / al * al;
      if (a + cap > (r + 1) * REGION) continue;
      heap_at[r] = a + cap;
      p = heap_base + a;
    }
  }
  if (p) {
    struct head *h = (struct head *)p - 1;
    h->class = al <= 16 ? c : CLASSES;
    h->used = 1;
    h->cap = cap;
    memset(p, (int)heap_rand(), cap < 512 ? cap : 512);
  }
  __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE);
  return p;
}
static void heap_release(void *p) {
  struct head *h = (struct head *)p - 1;
  if (h->used != 1) abort();
  h->used = 2;
  while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) {}
  if (h->class < CLASSES && heap_free[h->class].n < KEPT) heap_free[h->class].p[heap_free[h->class].n++] = p;
  __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE);
}
static void *heap_or_errno(void *p) {
  if (!p) errno = ENOMEM;
  return p;
}
void *malloc(size_t n) { return heap_base ? heap_or_errno(heap_alloc(n, 16)) : __libc_malloc(n); }
void free(void *p) {
  if (!p) return;
  if (on_heap(p)) heap_release(p);
  else if (!heap_base) __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  size_t n;
  if (!heap_base) return __libc_calloc(a, b);
  if (__builtin_mul_overflow(a, b, &n)) return heap_or_errno(0);
  void *p = heap_or_errno(heap_alloc(n, 16));
  return p ? memset(p, 0, n) : 0;
}
void *realloc(void *p, size_t n) {
  if (!heap_base) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  if (!on_heap(p)) { /* of the time before the heap was set up: its size is not known */
    void *q = __libc_realloc(p, n);
    return q;
  }
  void *q = heap_or_errno(heap_alloc(n, 16));
  if (!q) return 0;
  uint64_t cap = ((struct head *)p - 1)->cap;
  memcpy(q, p, cap < n ? cap : n);
  heap_release(p);
  return q;
}
void *memalign(size_t al, size_t n) { return heap_base ? heap_or_errno(heap_alloc(n, al < 16 ? 16 : al)) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n) {
  *out = memalign(al, n);
  return *out ? 0 : ENOMEM;
}
size_t malloc_usable_size(void *p) { return on_heap(p) ? ((struct head *)p - 1)->cap : 0; }

static int sim_pid;
pid_t getpid(void) { return sim_pid ? sim_pid : (pid_t)syscall(SYS_getpid); }
pid_t getppid(void) { return sim_pid ? 1 : (pid_t)syscall(SYS_getppid); }

__attribute__((constructor)) static void start(void) {
  const char *s = getenv("SIM_ON");
  struct rlimit rl;
  if (!s) return;
  const char *cwd = getenv("SIM_CWD");
  if (cwd && chdir(cwd)) _exit(121);
  const char *c = getenv("SIM_CPU");
  if (c) {
    rl.rlim_cur = strtoul(c, 0, 10);
    rl.rlim_max = rl.rlim_cur + 1;
    setrlimit(RLIMIT_CPU, &rl);
  }
  c = getenv("SIM_AS");
  if (c) {
    rl.rlim_cur = rl.rlim_max = strtoull(c, 0, 10);
    setrlimit(RLIMIT_AS, &rl);
  }
  c = getenv("SIM_STACK");
  if (c) {
    rl.rlim_cur = strtoull(c, 0, 10);
    rl.rlim_max = RLIM_INFINITY;
    setrlimit(RLIMIT_STACK, &rl);
  }
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  c = getenv("SIM_CLOCK");
  if (c) sscanf(c, "%lu,%lu", &clk_ns, &clk_step);
  c = getenv("SIM_DIRSEED");
  if (c) dirseed = strtoull(c, 0, 10);
  c = getenv("SIM_PID");
  if (c) sim_pid = atoi(c);
  c = getenv("SIM_HEAP");
  if (c && *c) heap_start(strtoull(c, 0, 10));
  const char *vars[] = {"SIM_PID", "SIM_HEAP", "SIM_ON", "SIM_CWD", "SIM_CPU", "SIM_AS", "SIM_STACK", "SIM_CLOCK", "SIM_DIRSEED", "LD_PRELOAD"};
  for (unsigned i = 0; i < sizeof vars / sizeof *vars; i++) unsetenv(vars[i]);
  active = s[0] == '1';
}

#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define FAULT(r) \
  if ((r).act == FAIL) { \
    errno = (int)(r).arg; \
    return -1; \
  }
/* libc declares arguments as never null which std does not stick to */
static const char *launder(const char *p) {
  __asm__("" : "+r"(p));
  return p;
}
static int sim(int fd) { return fd >= 0 && fd < 4096 && simfds[fd]; }
static const char *pathof(int fd) { return sim(fd) ? simfds[fd] : 0; }
static int opened(int fd, const char *p, int fl) {
  if (fd >= 0 && fd < 4096) {
    char *s = malloc(strlen(p) + 2);
    *s = (fl & O_ACCMODE) == O_RDONLY ? 'r' : 'w';
    strcpy(s + 1, p);
    free(simfds[fd]);
    simfds[fd] = s;
  }
  return fd;
}
static int ours(const char *p) { return !(p && (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strncmp(p, "/dev/", 5))); }

#define OPEN(name) \
  int name(const char *p, int fl, ...) { \
    REAL(name); \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
    if (!ours(p)) return real(p, fl, m); \
    struct reply r = ask("open", -1, fl, m, p); \
    FAULT(r); \
    return opened(real(p, fl, m), p, fl); \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
  int name(int d, const char *p, int fl, ...) { \
    REAL(name); \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
    if (!ours(p)) return real(d, p, fl, m); \
    struct reply r = ask("open", d, fl, m, p); \
    FAULT(r); \
    return opened(real(d, p, fl, m), p, fl); \
  }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  REAL(close);
  if (fd == SIMFD && active) return 0;
  if (sim(fd)) {
    struct reply r = ask("close", fd, 0, 0, pathof(fd));
    free(simfds[fd]);
    simfds[fd] = 0;
    if (r.act == FAIL) {
      real(fd);
      errno = (int)r.arg;
      return -1;
    }
  }
  return real(fd);
}
#define IO(name, op, ret, sig, call, len) \
  ret name sig { \
    REAL(name); \
    if (sim(fd)) { \
      struct reply r = ask(op, fd, (long)n, 0, pathof(fd)); \
      FAULT(r); \
      if (r.act == LIMIT && (uint64_t)r.arg < n) n = (size_t)r.arg; \
    } \
    return real call; \
  }
IO(read, "read", ssize_t, (int fd, void *b, size_t n), (fd, b, n), n)
IO(write, "write", ssize_t, (int fd, const void *b, size_t n), (fd, b, n), n)
IO(pread64, "read", ssize_t, (int fd, void *b, size_t n, off64_t o), (fd, b, n, o), n)
IO(pwrite64, "write", ssize_t, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o), n)
static ssize_t vec(int fd, const struct iovec *v, int c, int wr) {
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t k = wr ? write(fd, v[i].iov_base, v[i].iov_len) : read(fd, v[i].iov_base, v[i].iov_len);
    if (k < 0) return t ? t : -1;
    t += k;
    if ((size_t)k < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(writev);
  return sim(fd) ? vec(fd, v, c, 1) : real(fd, v, c);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  REAL(readv);
  return sim(fd) ? vec(fd, v, c, 0) : real(fd, v, c);
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned fl) {
  (void)a, (void)x, (void)b, (void)y, (void)n, (void)fl;
  errno = ENOSYS; /* std falls back to read and write */
  return -1;
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
  (void)a, (void)b, (void)o, (void)n;
  errno = ENOSYS;
  return -1;
}

#define PATH1(name, op, sig, call, path) \
  int name sig { \
    REAL(name); \
    if (!ours(path)) return real call; \
    struct reply r = ask(op, -1, 0, 0, path); \
    FAULT(r); \
    return real call; \
  }
PATH1(stat, "stat", (const char *p, struct stat *s), (p, s), p)
PATH1(stat64, "stat", (const char *p, struct stat64 *s), (p, s), p)
PATH1(lstat, "lstat", (const char *p, struct stat *s), (p, s), p)
PATH1(lstat64, "lstat", (const char *p, struct stat64 *s), (p, s), p)
PATH1(access, "stat", (const char *p, int m), (p, m), p)
PATH1(unlink, "unlink", (const char *p), (p), p)
PATH1(rmdir, "rmdir", (const char *p), (p), p)
PATH1(mkdir, "mkdir", (const char *p, mode_t m), (p, m), p)
PATH1(truncate64, "truncate", (const char *p, off64_t n), (p, n), p)
PATH1(chmod, "chmod", (const char *p, mode_t m), (p, m), p)
PATH1(chdir, "chdir", (const char *p), (p), p)
PATH1(unlinkat, "unlink", (int d, const char *p, int f), (d, p, f), p)
PATH1(mkdirat, "mkdir", (int d, const char *p, mode_t m), (d, p, m), p)
PATH1(rename, "rename", (const char *p, const char *q), (p, q), q)
PATH1(renameat, "rename", (int d, const char *p, int e, const char *q), (d, p, e, q), q)
PATH1(link, "link", (const char *p, const char *q), (p, q), q)
PATH1(linkat, "link", (int d, const char *p, int e, const char *q, int f), (d, p, e, q, f), q)
PATH1(symlink, "symlink", (const char *p, const char *q), (p, q), q)

int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict s) {
  REAL(statx);
  const char *q = launder(p);
  if (q && *q && ours(q)) {
    struct reply r = ask((fl & AT_SYMLINK_NOFOLLOW) ? "lstat" : "stat", d, 0, 0, q);
    FAULT(r);
  } else if (q && sim(d)) {
    struct reply r = ask("fstat", d, 0, 0, pathof(d));
    FAULT(r);
  }
  return real(d, p, fl, m, s);
}
#define FD1(name, op, sig, call) \
  int name sig { \
    REAL(name); \
    if (sim(fd)) { \
      struct reply r = ask(op, fd, 0, 0, pathof(fd)); \
      FAULT(r); \
    } \
    return real call; \
  }
FD1(fstat, "fstat", (int fd, struct stat *s), (fd, s))
FD1(fstat64, "fstat", (int fd, struct stat64 *s), (fd, s))
FD1(fsync, "fsync", (int fd), (fd))
FD1(fdatasync, "fsync", (int fd), (fd))
FD1(ftruncate, "truncate", (int fd, off_t n), (fd, n))
FD1(ftruncate64, "truncate", (int fd, off64_t n), (fd, n))

char *realpath(const char *restrict p, char *restrict out) {
  static char *(*real)(const char *, char *);
  if (!real) real = dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
  struct reply r = ask("realpath", -1, 0, 0, p);
  if (r.act == FAIL) {
    errno = (int)r.arg;
    return 0;
  }
  return real(p, out);
}
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) {
  REAL(readlink);
  if (ours(p)) {
    struct reply r = ask("readlink", -1, 0, 0, p);
    FAULT(r);
  }
  return real(p, b, n);
}
char *getcwd(char *b, size_t n) {
  REAL(getcwd);
  struct reply r = ask("getcwd", -1, 0, 0, 0);
  if (r.act == FAIL) {
    errno = (int)r.arg;
    return 0;
  }
  return real(b, n);
}
DIR *opendir(const char *p) {
  REAL(opendir);
  struct reply r = ask("opendir", -1, 0, 0, p);
  if (r.act == FAIL) {
    errno = (int)r.arg;
    return 0;
  }
  return real(p);
}
/* Directory entries come in an order of the simulator's choosing. */
static struct dirs { DIR *d; struct dirent64 *e; size_t n, i; } dirs[64];
static int cmp(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
struct dirent64 *readdir64(DIR *d) {
  REAL(readdir64);
  struct dirs *s = 0;
  if (!active) return real(d);
  for (int i = 0; i < 64; i++)
    if (dirs[i].d == d) s = &dirs[i];
  if (!s) {
    for (int i = 0; i < 64 && !s; i++)
      if (!dirs[i].d) s = &dirs[i];
    if (!s) return real(d);
    memset(s, 0, sizeof *s);
    s->d = d;
    struct dirent64 *e;
    while ((e = real(d))) {
      s->e = realloc(s->e, (s->n + 1) * sizeof *e);
      memcpy(&s->e[s->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    }
    qsort(s->e, s->n, sizeof *s->e, cmp);
    uint64_t x = dirseed * 2654435761u + 88172645463325252ull;
    for (size_t i = s->n; i > 1; i--) {
      x ^= x << 13, x ^= x >> 7, x ^= x << 17;
      size_t j = x % i;
      struct dirent64 t = s->e[i - 1];
      s->e[i - 1] = s->e[j];
      s->e[j] = t;
    }
  }
  ask("readdir", -1, 0, 0, 0);
  return s->i < s->n ? &s->e[s->i++] : 0;
}
int closedir(DIR *d) {
  REAL(closedir);
  for (int i = 0; i < 64; i++)
    if (dirs[i].d == d) dirs[i].d = 0;
  return real(d);
}

ssize_t getrandom(void *b, size_t n, unsigned fl) {
  REAL(getrandom);
  if (!active) return real(b, n, fl);
  struct reply r = ask("random", -1, (long)n, 0, 0);
  FAULT(r);
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = r.data[i % 32] + (unsigned char)(i / 32);
  return (ssize_t)n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  REAL(clock_gettime);
  if (!active) return real(c, t);
  clk_ns += clk_step;
  t->tv_sec = (time_t)(clk_ns / 1000000000ull);
  t->tv_nsec = (long)(clk_ns % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
  struct timespec s;
  (void)z;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (o) *o = s.tv_sec;
  return s.tv_sec;
}
/* A process that ends in an orderly way tells the simulator so that crashes can
 * be told from exits even when both happen at the same point. */
__attribute__((destructor)) static void stop(void) { ask("exit", -1, 0, 0, 0); }
