/* LD_PRELOAD shim used by the conformance harness: it gives a process under
 * test a controllable wall clock, a private listening port, and observable /
 * constrained socket I/O on accepted connections.  It never changes the bytes.
 *
 * Control page: file named by $VSHIM_CTL (mmap'ed shared), struct ctl below.
 * $VSHIM_PORT: bind() to port 7878 goes to this port instead.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <sys/epoll.h>
#include <poll.h>

#define PLAN 4096
struct ctl {
    _Atomic int64_t mode;       /* 0: real wall clock + off; 1: virtual */
    _Atomic int64_t off_ns;     /* mode 0: added to the real clock */
    _Atomic int64_t virt_ns;    /* mode 1: base */
    _Atomic int64_t seq;        /* mode 1: +1ns per reading */
    _Atomic int64_t rx_bytes;   /* bytes received on accepted sockets */
    _Atomic int64_t rx_calls;
    _Atomic int64_t rx_eof;     /* recv calls that returned 0 */
    _Atomic int64_t tx_bytes;
    _Atomic int64_t tx_calls;
    _Atomic int64_t accepted;
    _Atomic int64_t closed;     /* accepted sockets closed by the server */
    _Atomic int64_t sndbuf;     /* if >0: SO_SNDBUF for accepted sockets */
    _Atomic int64_t send_n;     /* send plan length, position */
    _Atomic int64_t send_i;
    _Atomic int64_t recv_n;
    _Atomic int64_t recv_i;
    _Atomic int64_t accept_fail; /* fail this many accept calls with ECONNABORTED */
    _Atomic int64_t jitter;     /* >0: random sleeps up to this many us at interposed calls */
    _Atomic int64_t send_delay_us; /* sleep before the first send on a socket */
    _Atomic int64_t rnd;
    _Atomic int64_t clk_n;      /* >0: the clk_n-th next reading of the wall clock sleeps ... */
    _Atomic int64_t clk_us;     /* ... this long */
    _Atomic int64_t clk_hit;    /* stalls so far */
    _Atomic int64_t speed;      /* >1: all clocks, sleeps and time limits run this many times faster */
    int32_t send_plan[PLAN];    /* >0 accept at most n bytes; <0 fail with -errno; 0 no limit */
    int32_t recv_plan[PLAN];
};
static struct ctl *C;
static struct ctl dummy;
static int myport = -1;
static _Atomic unsigned char isacc[65536];

static struct ctl *ctl(void) {
    if (C) return C;
    const char *p = getenv("VSHIM_CTL");
    struct ctl *c = &dummy;
    if (p) {
        int fd = open(p, O_RDWR);
        if (fd >= 0) {
            void *m = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) c = m;
            close(fd);
        }
    }
    const char *q = getenv("VSHIM_PORT");
    myport = q ? atoi(q) : -1;
    C = c;
    return C;
}
__attribute__((constructor)) static void init(void) { ctl(); }


/* straight to the kernel: the `syscall' below is this library's own */
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* the fast clock: counted from when this process started */
static int64_t base_mono, base_real;
static int64_t speed(void) { int64_t k = C ? C->speed : 0; return k > 1 ? k : 1; }
static int64_t ns(const struct timespec *t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
static struct timespec ts_of(int64_t t) { struct timespec r = {t / 1000000000, t % 1000000000}; return r; }
static int64_t kernel_time(clockid_t id) {
    struct timespec t;
    raw(SYS_clock_gettime, id, (long)&t, 0, 0, 0, 0);
    return ns(&t);
}
static int64_t *base_of(clockid_t id) {
    int64_t *b = id == CLOCK_REALTIME ? &base_real : &base_mono;
    return b;
}
static int is_time(clockid_t id) {
    return id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME;
}
static int64_t to_fast(clockid_t id, int64_t t) { return *base_of(id) + (t - *base_of(id)) * speed(); }
static int64_t to_kernel(clockid_t id, int64_t t) { return *base_of(id) + (t - *base_of(id)) / speed(); }
__attribute__((constructor(101))) static void start_clocks(void) {
    base_mono = kernel_time(CLOCK_MONOTONIC);
    base_real = kernel_time(CLOCK_REALTIME);
}

long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (n == SYS_futex && d && speed() > 1) {
        int op = (int)b & FUTEX_CMD_MASK;
        struct timespec t;
        if (op == FUTEX_WAIT) {
            t = ts_of(ns((struct timespec *)d) / speed());
            d = (long)&t;
        } else if (op == FUTEX_WAIT_BITSET) {
            t = ts_of(to_kernel(b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ns((struct timespec *)d)));
            d = (long)&t;
        }
        return raw(n, a, b, c, d, e, f);
    }
    return raw(n, a, b, c, d, e, f);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *q, struct timespec *rem) {
    int64_t k = speed();
    struct timespec t = *q;
    if (k > 1) t = ts_of(fl & TIMER_ABSTIME ? to_kernel(id, ns(q)) : ns(q) / k);
    int save = errno;
    long r = raw(SYS_clock_nanosleep, id, fl, (long)&t, (long)rem, 0, 0);
    int e = r < 0 ? errno : 0;
    errno = save;
    if (e == EINTR && rem && k > 1 && !(fl & TIMER_ABSTIME)) *rem = ts_of(ns(rem) * k);
    return e;
}
int nanosleep(const struct timespec *q, struct timespec *rem) {
    int e = clock_nanosleep(CLOCK_MONOTONIC, 0, q, rem);
    if (e) { errno = e; return -1; }
    return 0;
}
static int wait_ms(int ms) { return ms > 0 && speed() > 1 ? (int)((ms + speed() - 1) / speed()) : ms; }
int epoll_wait(int ep, struct epoll_event *ev, int n, int ms) { return (int)raw(SYS_epoll_wait, ep, (long)ev, n, wait_ms(ms), 0, 0); }
int poll(struct pollfd *p, nfds_t n, int ms) { return (int)raw(SYS_poll, (long)p, n, wait_ms(ms), 0, 0, 0); }

static void jit(void) {
    struct ctl *c = C;
    if (!c) return;
    int64_t j = c->jitter;
    if (j <= 0) return;
    uint64_t x = (uint64_t)atomic_fetch_add(&c->rnd, 0x9E3779B97F4A7C15ull);
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
    if ((x & 3) == 0) return;
    struct timespec ts = {0, (long)((x >> 8) % (uint64_t)j) * 1000};
    syscall(SYS_nanosleep, &ts, 0);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (id == CLOCK_REALTIME) {
        struct ctl *c = ctl();
        if (c->clk_n > 0 && atomic_fetch_sub(&c->clk_n, 1) == 1) {
            struct timespec d = {c->clk_us / 1000000, (c->clk_us % 1000000) * 1000};
            c->clk_hit++;
            syscall(SYS_nanosleep, &d, 0);
        }
        if (c->mode == 1) {
            int64_t t = c->virt_ns + atomic_fetch_add(&c->seq, 1);
            ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
            return 0;
        }
        *ts = ts_of(to_fast(id, kernel_time(id)));
        int r = 0;
        if (r == 0 && c->off_ns) {
            int64_t t = ts->tv_sec * 1000000000LL + ts->tv_nsec + c->off_ns;
            ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
        }
        return r;
    }
    if (speed() > 1 && is_time(id)) {
        *ts = ts_of(to_fast(id, kernel_time(id)));
        return 0;
    }
    return raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
}

int bind(int fd, const struct sockaddr *a, socklen_t n) {
    static int (*real)(int, const struct sockaddr *, socklen_t);
    if (!real) real = dlsym(RTLD_NEXT, "bind");
    ctl();
    struct sockaddr_in b;
    if (myport > 0 && a && a->sa_family == AF_INET && n >= sizeof b) {
        memcpy(&b, a, sizeof b);
        if (ntohs(b.sin_port) == 7878) { b.sin_port = htons(myport); return real(fd, (struct sockaddr *)&b, sizeof b); }
    }
    return real(fd, a, n);
}

static int acc(int fd) {
    struct ctl *c = ctl();
    if (fd >= 0 && fd < 65536) {
        isacc[fd] = 1;
        c->accepted++;
        int v = (int)c->sndbuf;
        if (v > 0) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
    }
    jit();
    return fd;
}
static int acc_fail(void) {
    struct ctl *c = ctl();
    if (c->accept_fail > 0 && atomic_fetch_sub(&c->accept_fail, 1) > 0) { errno = ECONNABORTED; return 1; }
    return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) {
    int r = syscall(SYS_accept4, fd, a, n, fl);
    if (r >= 0 && acc_fail()) { close(r); errno = ECONNABORTED; return -1; }
    return r < 0 ? r : acc(r);
}
int accept(int fd, struct sockaddr *a, socklen_t *n) { return accept4(fd, a, n, 0); }

int close(int fd) {
    if (fd >= 0 && fd < 65536 && isacc[fd]) { isacc[fd] = 0; if (C) C->closed++; }
    return syscall(SYS_close, fd);
}

static int plan(_Atomic int64_t *n, _Atomic int64_t *i, int32_t *p) {
    if (*n <= 0) return 0;
    int64_t k = atomic_fetch_add(i, 1);
    return k < *n && k < PLAN ? p[k] : 0;
}

ssize_t recv(int fd, void *b, size_t n, int fl) {
    struct ctl *c = ctl();
    int a = fd >= 0 && fd < 65536 && isacc[fd];
    if (a) {
        int lim = plan(&c->recv_n, &c->recv_i, c->recv_plan);
        if (lim < 0) { errno = -lim; return -1; }
        if (lim > 0 && (size_t)lim < n) n = lim;
    }
    ssize_t r = syscall(SYS_recvfrom, fd, b, n, fl, 0, 0);
    if (a && !(fl & MSG_PEEK)) {
        int e = errno;
        c->rx_calls++;
        if (r > 0) c->rx_bytes += r;
        if (r == 0) c->rx_eof++;
        jit();
        errno = e;
    }
    return r;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    struct ctl *c = ctl();
    int a = fd >= 0 && fd < 65536 && isacc[fd];
    if (a) {
        if (c->send_delay_us > 0 && isacc[fd] == 1) {
            struct timespec ts = {c->send_delay_us / 1000000, (c->send_delay_us % 1000000) * 1000};
            syscall(SYS_nanosleep, &ts, 0);
            isacc[fd] = 2;
        }
        jit();
        int lim = plan(&c->send_n, &c->send_i, c->send_plan);
        if (lim < 0) { errno = -lim; return -1; }
        if (lim > 0 && (size_t)lim < n) n = lim;
    }
    ssize_t r = syscall(SYS_sendto, fd, b, n, fl, 0, 0);
    if (a && r > 0) { c->tx_bytes += r; c->tx_calls++; }
    return r;
}
