// Interposed stand-in for the process's streams, clock and random source
// (LD_PRELOAD into the real `alg` binary).  Everything it answers comes from
// a plan in a shared file; everything it sees is logged there.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { MB = 1 << 20, SIZE = 8 * MB, OPS = 4096, EVMAX = 100000 };
// header words
enum { H_NEV, H_OUT, H_ERR, H_FLAG, H_INLEN, H_INPOS, H_NIN, H_NOUT, H_NERR, H_TOUT, H_TERR, H_TIN, H_SEED, H_CLK, H_RND, H_PI, H_PO, H_PE };
// op kinds: 0 = move up to n bytes, otherwise fail with errno n (kind 1), or return 0 (kind 2)
struct op { uint32_t kind, n; };
struct ev { uint32_t call, fd, want; int32_t got; };

static unsigned char *M;
static uint32_t *H;
static int alias[1024];
static uint64_t rs, now = 1000000000ull;

static struct op *ops(int which) { return (struct op *)(M + 4096 + (size_t)which * OPS * sizeof(struct op)); }
static struct ev *evs(void) { return (struct ev *)(M + 5 * MB); }
static uint64_t rnd(void) { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("CLI_SHM");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) _exit(98);
    M = mmap(NULL, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (M == MAP_FAILED) _exit(98);
    H = (uint32_t *)M;
    rs = H[H_SEED];
    for (int i = 0; i < 1024; i++) alias[i] = i < 3 ? i : -1;
    alarm(60);
}

static void event(uint32_t call, int fd, size_t want, long got) {
    uint32_t n = H[H_NEV]++;
    if (n >= 40 * EVMAX) { H[H_FLAG] |= 1; syscall(SYS_exit_group, 97); }
    // past the end of the record only faults are kept
    if (n >= EVMAX) { if (got > 0) return; n = EVMAX - 1 - n % 256; }
    evs()[n] = (struct ev){ call, (uint32_t)fd, (uint32_t)want, (int32_t)got };
}

static int which(int fd) { return M && fd >= 0 && fd < 1024 ? alias[fd] : -1; }

static ssize_t sim_read(char *buf, size_t n) {
    struct op o = { 0, UINT32_MAX };
    if (n == 0) { event(1, 0, 0, 0); return 0; }
    if (H[H_PI] < H[H_NIN]) o = ops(0)[H[H_PI]++];
    else if (H[H_TIN]) o = (struct op){ 1, H[H_TIN] };
    ssize_t r;
    if (o.kind == 1) r = -(ssize_t)o.n;
    else {
        size_t left = H[H_INLEN] - H[H_INPOS], k = n < o.n ? n : o.n;
        if (k > left) k = left;
        memcpy(buf, M + 1 * MB + H[H_INPOS], k);
        H[H_INPOS] += k;
        r = k;
    }
    event(1, 0, n, r);
    if (r < 0) { errno = -r; return -1; }
    return r;
}

static ssize_t sim_write(int w, const char *buf, size_t n) {
    struct op o = { 0, UINT32_MAX };
    int ho = w == 1 ? H_OUT : H_ERR, hp = w == 1 ? H_PO : H_PE, hn = w == 1 ? H_NOUT : H_NERR, ht = w == 1 ? H_TOUT : H_TERR;
    if (n == 0) { event(2, w, 0, 0); return 0; }
    if (H[hp] < H[hn]) o = ops(w)[H[hp]++];
    else if (H[ht]) o = (struct op){ 1, H[ht] };
    ssize_t r;
    if (o.kind == 1) r = -(ssize_t)o.n;
    else if (o.kind == 2) r = 0;
    else {
        size_t k = n < o.n ? n : o.n;
        size_t base = w == 1 ? 2 * (size_t)MB : 4 * (size_t)MB, cap = w == 1 ? 2 * MB : MB;
        static size_t beyond;
        size_t keep = k;
        if (H[ho] + k > cap) {
            // messages may be long; only an endless stream of them is a fault
            if (w == 1 || (beyond += k) > 64 * (size_t)MB) { H[H_FLAG] |= 2; syscall(SYS_exit_group, 97); }
            keep = cap - H[ho];
        }
        memcpy(M + base + H[ho], buf, keep);
        H[ho] += keep;
        r = k;
    }
    event(2, w, n, r);
    if (r < 0) { errno = -r; return -1; }
    return r;
}

ssize_t read(int fd, void *buf, size_t n) {
    int w = which(fd);
    if (w == 0) return sim_read(buf, n);
    return syscall(SYS_read, fd, buf, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (which(fd) != 0) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t write(int fd, const void *buf, size_t n) {
    int w = which(fd);
    if (w == 1 || w == 2) return sim_write(w, buf, n);
    return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    int w = which(fd);
    if (w != 1 && w != 2) return syscall(SYS_writev, fd, v, c);
    size_t t = 0;
    for (int i = 0; i < c; i++) t += v[i].iov_len;
    char *b = mmap(NULL, t + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = sim_write(w, b, t);
    int e = errno;
    munmap(b, t + 1);
    errno = e;
    return r;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    int r = syscall(SYS_fcntl, fd, cmd, a);
    if (r >= 0 && r < 1024 && M && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) alias[r] = which(fd);
    return r;
}
int dup(int fd) {
    int r = syscall(SYS_dup, fd);
    if (r >= 0 && r < 1024 && M) alias[r] = which(fd);
    return r;
}
int close(int fd) {
    if (M && fd > 2 && fd < 1024) alias[fd] = -1;
    return syscall(SYS_close, fd);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!M) return syscall(SYS_getrandom, b, n, f);
    H[H_RND]++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd();
    return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!M) return syscall(SYS_clock_gettime, c, t);
    H[H_CLK]++;
    now += rnd() % 1000000000ull;
    t->tv_sec = now / 1000000000ull;
    t->tv_nsec = now % 1000000000ull;
    return 0;
}
// the panic message names the thread's id
pid_t gettid(void) { return M ? 4242 : (pid_t)syscall(SYS_gettid); }
