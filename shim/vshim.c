/* LD_PRELOAD library: virtual time, exact quiescence, schedule gates, fault injection for the server under test.
 *
 * A control page shared with the harness (file named by $VSHIM_CTL) holds the virtual clocks, the quiescence epoch and one
 * slot per thread.  Every potentially blocking call is executed in short real-time slices; between slices the thread looks at
 * the virtual clock.  A thread that is still blocked after having read epoch e records idle_epoch = e.  `activity` is
 * incremented whenever a thread starts or stops being blocked.  The harness: a0 = activity; epoch++; wait until all
 * threads have idle_epoch >= epoch; quiescent iff activity == a0. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>

#define NSLOTS 512
#define TICK_NS 100ULL
#define SLOP_NS 1000000ULL
#define SLICE_NS 1000000L

typedef _Atomic uint64_t au64;

struct slot {
    au64 state; /* 0 free, 1 running, 2 blocked, 3 at a gate */
    au64 idle_epoch;
    au64 gate_seq;
    au64 gate_open;
    au64 tid;
    au64 why;
    au64 pad[2];
};

struct ctl {
    au64 ready;      /* 0 */
    au64 mono;       /* 8 */
    au64 boot;       /* 16 */
    au64 real;       /* 24 */
    au64 tick;       /* 32 */
    au64 epoch;      /* 40 */
    au64 activity;   /* 48 */
    au64 spawns;     /* 56 */
    au64 nslots;     /* 64 */
    au64 refuse;     /* 72: refuse outgoing TCP connections to this port */
    au64 refused;    /* 80 */
    au64 gate_mode;  /* 88 */
    au64 loglen;     /* 96: bytes used in log area */
    au64 inrecv;     /* 104: bytes received on inet sockets */
    au64 dnsfails;   /* 112 */
    au64 spawnfails; /* 120 */
    au64 connects;   /* 128 */
    au64 touches;    /* 136: files whose times were set to now */
    au64 dpid;       /* 144: the daemon, once the server has become one */
    au64 accfail;    /* 152: let so many calls of accept fail for lack of file descriptors */
    char pad[4096 - 160];
    struct slot slots[NSLOTS]; /* 4096 .. 36864 */
    char log[65536];
};

static struct ctl *C;
static __thread struct slot *me;
static __thread int in_gate;

static long rawsys(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static long reterr(long r)
{
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
#define REAL(name) static __typeof__(name) *real_##name; if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static struct slot *slot_alloc(void)
{
    for (int i = 0; i < NSLOTS; i++) {
        uint64_t z = 0;
        if (atomic_load(&C->slots[i].state) == 0 && atomic_compare_exchange_strong(&C->slots[i].state, &z, 1)) {
            atomic_store(&C->slots[i].gate_seq, 0);
            atomic_store(&C->slots[i].gate_open, 0);
            uint64_t n = atomic_load(&C->nslots);
            while (n < (uint64_t)i + 1 && !atomic_compare_exchange_strong(&C->nslots, &n, i + 1)) ;
            return &C->slots[i];
        }
    }
    abort();
}

__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("VSHIM_CTL");
    if (!p) return;
    int fd = (int)rawsys(SYS_openat, AT_FDCWD, (long)p, O_RDWR | O_CLOEXEC, 0, 0, 0);
    if (fd < 0) return;
    struct ctl *c = mmap(NULL, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    rawsys(SYS_close, fd, 0, 0, 0, 0, 0);
    if (c == MAP_FAILED) return;
    C = c;
    me = slot_alloc();
    atomic_fetch_add(&C->activity, 1);
    atomic_store(&me->tid, rawsys(SYS_gettid, 0, 0, 0, 0, 0, 0));
    atomic_store(&C->ready, 1);
}

/* ---- threads ---- */
struct tramp { void *(*fn)(void *); void *arg; struct slot *s; };
static void *trampoline(void *p)
{
    struct tramp t = *(struct tramp *)p;
    free(p);
    me = t.s;
    atomic_store(&me->tid, rawsys(SYS_gettid, 0, 0, 0, 0, 0, 0));
    void *r = t.fn(t.arg);
    struct slot *s = me;
    me = NULL;
    atomic_fetch_add(&C->activity, 1);
    atomic_store(&s->state, 0);
    return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    REAL(pthread_create);
    if (!C) return real_pthread_create(t, attr, fn, arg);
    struct tramp *p = malloc(sizeof *p);
    p->fn = fn; p->arg = arg; p->s = slot_alloc();
    atomic_store(&p->s->idle_epoch, 0);
    atomic_fetch_add(&C->activity, 1);
    int r = real_pthread_create(t, attr, trampoline, p);
    if (r) { atomic_store(&p->s->state, 0); free(p); }
    return r;
}

/* ---- blocking ---- */
struct blk { int in; };
static void blk_enter(struct blk *b, int why)
{
    if (b->in) return;
    b->in = 1;
    atomic_store(&me->why, why);
    atomic_store(&me->state, 2);
    atomic_fetch_add(&C->activity, 1);
}
static void blk_leave(struct blk *b)
{
    if (!b->in) return;
    b->in = 0;
    atomic_fetch_add(&C->activity, 1);
    atomic_store(&me->state, 1);
}
static void blk_mark(uint64_t e) { atomic_store(&me->idle_epoch, e); }
#define ON (C && me)

static uint64_t vnow(au64 *base) { return atomic_load(base) + atomic_load(&C->tick) * TICK_NS; }
static uint64_t vmono(void) { return vnow(&C->mono); }
static int past(uint64_t deadline, au64 *base) { return vnow(base) + SLOP_NS >= deadline; }
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ULL + t->tv_nsec; }
static void real_slice(void) { struct timespec s = {0, SLICE_NS / 2}; rawsys(SYS_nanosleep, (long)&s, 0, 0, 0, 0, 0); }

/* ---- clocks ---- */
int clock_gettime(clockid_t clk, struct timespec *ts)
{
    au64 *b = NULL;
    if (C) switch (clk) {
        case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: b = &C->mono; break;
        case CLOCK_BOOTTIME: b = &C->boot; break;
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: b = &C->real; break;
    }
    if (!b) return (int)reterr(rawsys(SYS_clock_gettime, clk, (long)ts, 0, 0, 0, 0));
    uint64_t n = atomic_load(b) + (atomic_fetch_add(&C->tick, 1) + 1) * TICK_NS;
    ts->tv_sec = n / 1000000000ULL;
    ts->tv_nsec = n % 1000000000ULL;
    return 0;
}
time_t time(time_t *p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

static int vsleep_until(uint64_t dl, au64 *base)
{
    struct blk b = {0};
    for (;;) {
        uint64_t e = atomic_load(&C->epoch);
        if (past(dl, base)) break;
        blk_enter(&b, 1);
        real_slice();
        if (past(dl, base)) break;
        blk_mark(e);
    }
    blk_leave(&b);
    return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem)
{
    if (!ON) return (int)reterr(rawsys(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0));
    return vsleep_until(vmono() + ts_ns(req), &C->mono);
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem)
{
    if (!ON) return (int)-rawsys(SYS_clock_nanosleep, clk, flags, (long)req, (long)rem, 0, 0);
    au64 *b = clk == CLOCK_REALTIME ? &C->real : clk == CLOCK_BOOTTIME ? &C->boot : &C->mono;
    uint64_t dl = (flags & TIMER_ABSTIME) ? ts_ns(req) : vnow(b) + ts_ns(req);
    return vsleep_until(dl, b);
}

static long vfutex(long addr, long op, long val, struct timespec *to)
{
    int cmd = (int)(op & FUTEX_CMD_MASK);
    au64 *base = (op & FUTEX_CLOCK_REALTIME) ? &C->real : &C->mono;
    uint64_t dl = 0;
    int has = to != NULL;
    if (has) dl = cmd == FUTEX_WAIT ? vmono() + ts_ns(to) : ts_ns(to);
    struct blk b = {0};
    struct timespec sl = {0, SLICE_NS};
    long r;
    for (;;) {
        uint64_t e = atomic_load(&C->epoch);
        if (has && past(dl, base)) { r = -ETIMEDOUT; break; }
        struct timespec zero = {0, 1};
        r = rawsys(SYS_futex, addr, FUTEX_WAIT | (op & FUTEX_PRIVATE_FLAG), val, (long)(b.in ? &sl : &zero), 0, 0);
        if (r != -ETIMEDOUT && r != -EINTR) break;
        if (!b.in) { blk_enter(&b, 2); continue; }
        if (r == -ETIMEDOUT) {
            if (has && past(dl, base)) break;
            blk_mark(e);
        }
    }
    blk_leave(&b);
    return reterr(r);
}
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && ON) {
        int cmd = (int)(b & FUTEX_CMD_MASK);
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) return vfutex(a, b, (long)(int)c, (struct timespec *)d);
    }
    return reterr(rawsys(n, a, b, c, d, e, f));
}

int sched_yield(void)
{
    if (!ON || in_gate || !atomic_load(&C->gate_mode)) return 0;
    in_gate = 1;
    uint64_t g = atomic_fetch_add(&me->gate_seq, 1) + 1;
    atomic_store(&me->state, 3);
    atomic_fetch_add(&C->activity, 1);
    for (;;) {
        uint64_t e = atomic_load(&C->epoch);
        if (atomic_load(&me->gate_open) >= g || !atomic_load(&C->gate_mode)) break;
        struct timespec s = {0, SLICE_NS / 5};
        rawsys(SYS_nanosleep, (long)&s, 0, 0, 0, 0, 0);
        if (atomic_load(&me->gate_open) >= g || !atomic_load(&C->gate_mode)) break;
        blk_mark(e);
    }
    atomic_fetch_add(&C->activity, 1);
    atomic_store(&me->state, 1);
    in_gate = 0;
    return 0;
}

static long vpoll(struct pollfd *fds, nfds_t n, int has, uint64_t dl)
{
    struct blk b = {0};
    long r;
    for (;;) {
        uint64_t e = atomic_load(&C->epoch);
        struct timespec sl = {0, b.in ? SLICE_NS : 0};
        r = rawsys(SYS_ppoll, (long)fds, n, (long)&sl, 0, 8, 0);
        if (r != 0) break;
        if (has && past(dl, &C->mono)) break;
        if (!b.in) { blk_enter(&b, 3); continue; }
        blk_mark(e);
    }
    blk_leave(&b);
    return reterr(r);
}
int poll(struct pollfd *fds, nfds_t n, int timeout)
{
    if (!ON || timeout == 0) return (int)reterr(rawsys(SYS_poll, (long)fds, n, timeout, 0, 0, 0));
    return (int)vpoll(fds, n, timeout > 0, timeout > 0 ? vmono() + (uint64_t)timeout * 1000000ULL : 0);
}
int ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *sm)
{
    if (!ON) return (int)reterr(rawsys(SYS_ppoll, (long)fds, n, (long)ts, (long)sm, 8, 0));
    return (int)vpoll(fds, n, ts != NULL, ts ? vmono() + ts_ns(ts) : 0);
}

/* ---- descriptors ---- */
#define MAXFD 4096
static _Atomic uint64_t rcvtimeo[MAXFD];

int setsockopt(int fd, int level, int name, const void *val, socklen_t len)
{
    if (C && level == SOL_SOCKET && name == SO_RCVTIMEO && fd >= 0 && fd < MAXFD && len >= sizeof(struct timeval)) {
        const struct timeval *tv = val;
        atomic_store(&rcvtimeo[fd], (uint64_t)tv->tv_sec * 1000000000ULL + (uint64_t)tv->tv_usec * 1000ULL);
        return 0;
    }
    return (int)reterr(rawsys(SYS_setsockopt, fd, level, name, (long)val, len, 0));
}
int socket(int d, int t, int p)
{
    long r = rawsys(SYS_socket, d, t, p, 0, 0, 0);
    if (r >= 0 && r < MAXFD) atomic_store(&rcvtimeo[r], 0);
    return (int)reterr(r);
}
/* Wait until fd is readable: 0 ok, -1 virtual timeout. */
static int wait_in(int fd, int why)
{
    if (!ON) return 0;
    int fl = (int)rawsys(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0);
    if (fl < 0 || (fl & O_NONBLOCK)) return 0;
    uint64_t to = fd >= 0 && fd < MAXFD ? atomic_load(&rcvtimeo[fd]) : 0;
    uint64_t dl = to ? vmono() + to : 0;
    struct blk b = {0};
    int r = 0;
    for (;;) {
        uint64_t e = atomic_load(&C->epoch);
        struct pollfd p = {fd, POLLIN, 0};
        struct timespec sl = {0, b.in ? SLICE_NS : 0};
        long k = rawsys(SYS_ppoll, (long)&p, 1, (long)&sl, 0, 8, 0);
        if (k > 0 || (k < 0 && k != -EINTR)) break;
        if (to && past(dl, &C->mono)) { r = -1; break; }
        if (!b.in) { blk_enter(&b, why); continue; }
        if (k == 0) blk_mark(e);
    }
    blk_leave(&b);
    return r;
}
static void count_in(int fd, ssize_t n)
{
    if (!C || n <= 0) return;
    struct sockaddr_storage ss;
    socklen_t l = sizeof ss;
    if (rawsys(SYS_getsockname, fd, (long)&ss, (long)&l, 0, 0, 0) == 0 && (ss.ss_family == AF_INET || ss.ss_family == AF_INET6))
        atomic_fetch_add(&C->inrecv, n);
}
ssize_t recv(int fd, void *buf, size_t n, int flags)
{
    if (!(flags & MSG_DONTWAIT) && wait_in(fd, 4)) { errno = EAGAIN; return -1; }
    ssize_t r = reterr(rawsys(SYS_recvfrom, fd, (long)buf, n, flags, 0, 0));
    if (!(flags & MSG_PEEK)) count_in(fd, r);
    return r;
}
ssize_t read(int fd, void *buf, size_t n)
{
    if (wait_in(fd, 4)) { errno = EAGAIN; return -1; }
    ssize_t r = reterr(rawsys(SYS_read, fd, (long)buf, n, 0, 0, 0));
    count_in(fd, r);
    return r;
}
ssize_t readv(int fd, const struct iovec *iov, int cnt)
{
    if (wait_in(fd, 4)) { errno = EAGAIN; return -1; }
    ssize_t r = reterr(rawsys(SYS_readv, fd, (long)iov, cnt, 0, 0, 0));
    count_in(fd, r);
    return r;
}
/* Otherwise the kernel may hold back what the server has sent (for real time, which it has none of). */
static void nodelay(int fd)
{
    int one = 1;
    if (C) rawsys(SYS_setsockopt, fd, IPPROTO_TCP, TCP_NODELAY, (long)&one, sizeof one, 0);
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
    wait_in(fd, 5);
    uint64_t n = C ? atomic_load(&C->accfail) : 0;
    while (n && !atomic_compare_exchange_strong(&C->accfail, &n, n - 1)) ;
    if (n) { errno = EMFILE; return -1; }
    long r = rawsys(SYS_accept4, fd, (long)a, (long)l, flags, 0, 0);
    if (r >= 0 && r < MAXFD) atomic_store(&rcvtimeo[r], 0);
    if (r >= 0) nodelay((int)r);
    return (int)reterr(r);
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }

int connect(int fd, const struct sockaddr *a, socklen_t len)
{
    struct sockaddr_un sl;
    if (C && a && a->sa_family == AF_UNIX && strcmp(((const struct sockaddr_un *)a)->sun_path, "/dev/log") == 0 && getenv("VSHIM_SYSLOG")) {
        memset(&sl, 0, sizeof sl);
        sl.sun_family = AF_UNIX;
        snprintf(sl.sun_path, sizeof sl.sun_path, "%s", getenv("VSHIM_SYSLOG"));
        a = (const struct sockaddr *)&sl;
        len = sizeof sl;
    }
    if (C && a) {
        int port = -1;
        if (a->sa_family == AF_INET) port = ntohs(((const struct sockaddr_in *)a)->sin_port);
        else if (a->sa_family == AF_INET6) port = ntohs(((const struct sockaddr_in6 *)a)->sin6_port);
        if (port >= 0) {
            atomic_fetch_add(&C->connects, 1);
            nodelay(fd);
            if (atomic_load(&C->refuse) == (uint64_t)port) {
                atomic_fetch_add(&C->refused, 1);
                errno = ECONNREFUSED;
                return -1;
            }
        }
    }
    return (int)reterr(rawsys(SYS_connect, fd, (long)a, len, 0, 0, 0));
}
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    REAL(getaddrinfo);
    if (C && node) {
        size_t n = strlen(node);
        if (n > 8 && !strcmp(node + n - 8, ".invalid")) {
            atomic_fetch_add(&C->dnsfails, 1);
            return EAI_NONAME;
        }
    }
    return real_getaddrinfo(node, service, hints, res);
}

/* ---- processes ---- */
pid_t waitpid(pid_t pid, int *st, int opts)
{
    if (!ON || (opts & WNOHANG)) return (pid_t)reterr(rawsys(SYS_wait4, pid, (long)st, opts, 0, 0, 0));
    struct blk b = {0};
    long r;
    for (;;) {
        uint64_t e = atomic_load(&C->epoch);
        r = rawsys(SYS_wait4, pid, (long)st, opts | WNOHANG, 0, 0, 0);
        if (r != 0) break;
        if (!b.in) { blk_enter(&b, 6); continue; }
        real_slice();
        r = rawsys(SYS_wait4, pid, (long)st, opts | WNOHANG, 0, 0, 0);
        if (r != 0) break;
        blk_mark(e);
    }
    blk_leave(&b);
    return (pid_t)reterr(r);
}
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[])
{
    REAL(posix_spawnp);
    int r = real_posix_spawnp(pid, file, fa, at, argv, envp);
    if (C) atomic_fetch_add(r == 0 ? &C->spawns : &C->spawnfails, 1);
    return r;
}
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[])
{
    REAL(posix_spawn);
    int r = real_posix_spawn(pid, file, fa, at, argv, envp);
    if (C) atomic_fetch_add(r == 0 ? &C->spawns : &C->spawnfails, 1);
    return r;
}
int pidfd_spawnp(int *pidfd, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[])
{
    static int (*real)(int *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
    if (!real) real = dlsym(RTLD_NEXT, "pidfd_spawnp");
    if (!real) return ENOSYS;
    int r = real(pidfd, file, fa, at, argv, envp);
    if (C) atomic_fetch_add(r == 0 ? &C->spawns : &C->spawnfails, 1);
    return r;
}
int kill(pid_t pid, int sig)
{
    int r = (int)reterr(rawsys(SYS_kill, pid, sig, 0, 0, 0, 0));
    if (C && r == 0 && pid > 0 && sig == SIGKILL) /* the kernel takes its time over a child's end: not over until it is */
        for (int i = 0; i < 20000; i++) {
            siginfo_t si;
            memset(&si, 0, sizeof si);
            long w = rawsys(SYS_waitid, P_PID, pid, (long)&si, WEXITED | WNOWAIT | WNOHANG, 0, 0);
            if (w < 0 || si.si_pid != 0) break;
            real_slice();
        }
    return r;
}
pid_t fork(void)
{
    REAL(fork);
    pid_t r = real_fork();
    if (C) {
        if (r > 0) atomic_fetch_add(&C->spawns, 1);
        else if (r == 0) C = NULL; /* the child only execs */
    }
    return r;
}

int daemon(int nochdir, int noclose)
{
    REAL(fork);
    if (!C) { REAL(daemon); return real_daemon(nochdir, noclose); }
    pid_t r = real_fork();
    if (r < 0) return -1;
    if (r > 0) {
        atomic_store(&C->dpid, r); /* (both do so: either may be observed first) */
        _exit(0);
    }
    atomic_store(&C->dpid, rawsys(SYS_getpid, 0, 0, 0, 0, 0, 0));
    for (int i = 0; i < NSLOTS; i++) /* the other threads stay behind */
        if (&C->slots[i] != me) atomic_store(&C->slots[i].state, 0);
    atomic_store(&me->tid, rawsys(SYS_gettid, 0, 0, 0, 0, 0, 0));
    setsid();
    if (!nochdir && chdir("/")) return -1;
    if (!noclose) { /* (but not stderr, where panics are looked for) */
        int n = (int)rawsys(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0, 0, 0);
        if (n >= 0) { dup2(n, 0); dup2(n, 1); if (n > 2) rawsys(SYS_close, n, 0, 0, 0, 0, 0); }
    }
    atomic_fetch_add(&C->activity, 1);
    return 0;
}

/* ---- files opened for writing ---- */
static void log_path(const char *what, const char *path, int flags)
{
    if (!C || !path) return;
    int acc = flags & O_ACCMODE;
    if (acc == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) return;
    char buf[600];
    int n = snprintf(buf, sizeof buf, "%s %s\n", what, path);
    if (n <= 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    uint64_t o = atomic_fetch_add(&C->loglen, n);
    if (o + n < sizeof C->log) memcpy(C->log + o, buf, n);
}
/* ---- file times: only the socket's are of interest; d, times, and flags have to be those that set both to now ---- */
int utimensat(int d, const char *p, const struct timespec ts[2], int fl)
{
    int r = (int)reterr(rawsys(SYS_utimensat, d, (long)p, (long)ts, fl, 0, 0));
    if (C && r == 0 && p && strlen(p) > 5 && (!ts || (ts[0].tv_nsec == UTIME_NOW && ts[1].tv_nsec == UTIME_NOW))) {
        struct stat st;
        if (lstat(p, &st) == 0 && S_ISSOCK(st.st_mode)) atomic_fetch_add(&C->touches, 1);
    }
    return r;
}
#define OPENMODE() mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { OPENMODE(); log_path("open", p, fl); return (int)reterr(rawsys(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0)); }
int open64(const char *p, int fl, ...) { OPENMODE(); log_path("open", p, fl); return (int)reterr(rawsys(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0)); }
int openat(int d, const char *p, int fl, ...) { OPENMODE(); log_path("open", p, fl); return (int)reterr(rawsys(SYS_openat, d, (long)p, fl, m, 0, 0)); }
int openat64(int d, const char *p, int fl, ...) { OPENMODE(); log_path("open", p, fl); return (int)reterr(rawsys(SYS_openat, d, (long)p, fl, m, 0, 0)); }
int creat(const char *p, mode_t m) { log_path("creat", p, O_CREAT | O_WRONLY); return (int)reterr(rawsys(SYS_openat, AT_FDCWD, (long)p, O_CREAT | O_WRONLY | O_TRUNC, m, 0, 0)); }
int rename(const char *a, const char *b) { log_path("rename", b, O_CREAT); return (int)reterr(rawsys(SYS_rename, (long)a, (long)b, 0, 0, 0, 0)); }
int mkdir(const char *p, mode_t m) { log_path("mkdir", p, O_CREAT); return (int)reterr(rawsys(SYS_mkdir, (long)p, m, 0, 0, 0, 0)); }
