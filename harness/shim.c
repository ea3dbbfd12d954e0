/*
 * Observation and control shim, linked into dw_node / dw_client when they are
 * built for a check.  It redefines libc entry points, records what the program
 * does at the system-call boundary in a shared-memory log with one global
 * order, and lets the driver control what the environment does:
 *   - timerfds run on virtual time (the driver ticks it)
 *   - CLOCK_THREAD_CPUTIME_ID is a virtual counter (CPU consumed by COMPUTE)
 *   - recv()s can be cut short, send()s can be cut short or refused (EAGAIN)
 *   - event loops can be held so that several events land in one batch
 *   - operations on the storage file can be gated and counted
 * It knows nothing about the program's internal functions or data.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <linux/futex.h>
#include <linux/sockios.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NFD 4096
#define NTHR 64
#define HDR_BYTES 8192

enum { K_NONE, K_LISTEN, K_TCPIN, K_TCPOUT, K_UDP, K_STORE, K_TIMER };

enum {
    E_ACCEPT = 1, E_CONNECT, E_CLOSE, E_RECV, E_SEND, E_WRITE, E_READ, E_FSYNC,
    E_TICK, E_AFF, E_SLEEP, E_CLOCK, E_BIND, E_LSEEK, E_MARK, E_SHUT, E_TRUNC, E_ESTAB, E_OPT, E_SCHED, E_INTR
};

typedef struct {
    volatile uint64_t magic;
    volatile _Atomic uint64_t log_off;    /* 1: bytes of log used            */
    volatile _Atomic uint64_t vnow;       /* 2: virtual time, us             */
    volatile _Atomic uint64_t next_exp;   /* 3: next armed expiry, ~0 = none */
    volatile _Atomic uint64_t hold;       /* 4: hold event loops             */
    volatile _Atomic int64_t disk_credit; /* 5: -1 unlimited                 */
    volatile _Atomic uint64_t recv_max;   /* 6: 0 = no cut, k: 1..k random   */
    volatile _Atomic uint64_t send_max;   /* 7: 0 = no cut                   */
    volatile _Atomic uint64_t send_eagain;/* 8: percent of sends refused     */
    volatile _Atomic uint64_t rng;        /* 9                               */
    volatile _Atomic uint64_t vcpu;       /* 10: virtual CPU consumed, us    */
    volatile _Atomic uint64_t nthr;       /* 11                              */
    volatile _Atomic uint64_t disk_waiting; /* 12: threads waiting for credit */
    volatile _Atomic uint64_t nclock;     /* 13                              */
    volatile _Atomic uint64_t disk_short; /* 14: max bytes per disk op, 0 = no limit */
    volatile _Atomic uint64_t sndbuf;     /* 15: SO_SNDBUF forced on accept/connect */
    volatile _Atomic uint64_t ncpu;       /* 16: fake number of CPUs, 0 = real */
    volatile _Atomic uint64_t standin;    /* 17: addresses are noted, not used */
    volatile _Atomic uint64_t fsync_fail; /* 18 */
    volatile _Atomic uint64_t rt;         /* 19: client: virtual time, us */
    volatile _Atomic uint64_t outq;       /* 20: longest kernel send queue, on request */
    volatile _Atomic uint64_t ctltid;     /* 21: kernel id of the thread serving the driver */
    volatile _Atomic uint64_t clkstep;    /* 22: client: us per reading of the clock */
    volatile _Atomic uint32_t rtseq, rtpad; /* 23: client: futex for sleepers */
    volatile _Atomic uint64_t watch;      /* 24: note socket options and scheduling */
    volatile _Atomic uint64_t eintr;      /* 25: percent of waits that are interrupted */
    volatile _Atomic uint64_t mute;       /* 26: nothing is recorded; 2: what is left of a millisecond passes by itself, 3: any time */
    uint64_t pad[37];
    struct {                               /* at 64*8 = 512 */
        volatile _Atomic uint64_t state;  /* 0 unused 1 running 2 idle 3 gated 4 held 6 asleep */
        volatile _Atomic uint64_t waits;  /* client: when the sleep ends */
    } thr[NTHR];
} hdr_t;

typedef struct {
    uint32_t len;      /* whole record */
    uint8_t type, tid, kind, pad;
    int32_t fd;
    int32_t err;
    uint64_t vcpu;
    int64_t a, b, rv;  /* rv = INT64_MIN while the call is in progress */
    uint64_t seq;      /* order among the records of all programs */
} rec_t;

static hdr_t *H;
static volatile _Atomic uint64_t *SEQ;
static unsigned char *LOGB;
static uint64_t LOGSZ;
static int ctlfd = -1;
static int log_clock;                   /* this is the client */
static char store_path[512];
static atomic_flag lk = ATOMIC_FLAG_INIT;
static __thread int my_tid = -1;
static __thread uint64_t my_cpu;
static uint8_t kind[NFD];
static struct { int used; uint64_t exp, ival; int armed; } tmr[NFD];
static pthread_mutex_t tmtx = PTHREAD_MUTEX_INITIALIZER;

#define REAL(ret, name, ...) \
    static ret (*r_##name)(__VA_ARGS__); \
    if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)

static int tid(void) {
    if (my_tid < 0 && H) my_tid = atomic_fetch_add(&H->nthr, 1) % NTHR;
    return my_tid;
}

static uint64_t rnd(void) {
    uint64_t x = atomic_fetch_add(&H->rng, 0x9E3779B97F4A7C15ull) + 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

static int kd(int fd) { return (H && fd >= 0 && fd < NFD) ? kind[fd] : K_NONE; }
static void setkd(int fd, int k) { if (fd >= 0 && fd < NFD) kind[fd] = k; }

/* append a record; payload may be NULL.  Returns it (for a later patch of rv) */
static rec_t *logrec(int type, int fd, int64_t a, int64_t b, int64_t rv, int err, const void *pl, uint64_t n) {
    if (!H || H->mute) return NULL;
    int saved = errno;
    uint64_t need = (sizeof(rec_t) + n + 7) & ~7ull;
    rec_t *r = NULL;
    while (atomic_flag_test_and_set_explicit(&lk, memory_order_acquire)) sched_yield();
    uint64_t off = H->log_off;
    if (off + need <= LOGSZ) {
        r = (rec_t *)(LOGB + off);
        r->len = need; r->type = type; r->tid = tid(); r->kind = kd(fd); r->fd = fd; r->err = err;
        r->vcpu = log_clock ? H->rt : H->vcpu; r->a = a; r->b = b; r->rv = rv;
        r->seq = SEQ ? atomic_fetch_add(SEQ, 1) : 0;
        if (n) memcpy(r + 1, pl, n);
        atomic_store_explicit(&H->log_off, off + need, memory_order_release);
    } else {
        H->magic = 0xDEAD;   /* overflow: the driver reports an error */
    }
    atomic_flag_clear_explicit(&lk, memory_order_release);
    errno = saved;
    return r;
}

static int64_t pack_addr(const struct sockaddr *sa) {
    if (!sa || sa->sa_family != AF_INET) return -1;
    const struct sockaddr_in *in = (const void *)sa;
    return ((int64_t)ntohl(in->sin_addr.s_addr) << 16) | ntohs(in->sin_port);
}

/* ---------------------------------------------------------------- timers */
static void recompute_next(void) {
    uint64_t m = ~0ull;
    for (int i = 0; i < NFD; i++)
        if (tmr[i].used && tmr[i].armed && tmr[i].exp < m) m = tmr[i].exp;
    H->next_exp = m;
}

static void tick_to(uint64_t t) {
    pthread_mutex_lock(&tmtx);
    H->vnow = t;
    logrec(E_TICK, -1, (int64_t)t, 0, 0, 0, NULL, 0);
    for (int i = 0; i < NFD; i++)
        if (tmr[i].used && tmr[i].armed && tmr[i].exp <= t) {
            uint64_t n = 0;
            if (tmr[i].ival) {
                while (tmr[i].exp <= t) { tmr[i].exp += tmr[i].ival; n++; }
            } else { tmr[i].armed = 0; n = 1; }
            syscall(SYS_write, i, &n, sizeof n);
        }
    recompute_next();
    pthread_mutex_unlock(&tmtx);
}

int timerfd_create(int clk, int flags) {
    REAL(int, timerfd_create, int, int);
    if (!H) return r_timerfd_create(clk, flags);
    int fl = 0;
    if (flags & TFD_NONBLOCK) fl |= EFD_NONBLOCK;
    if (flags & TFD_CLOEXEC) fl |= EFD_CLOEXEC;
    int fd = eventfd(0, fl);
    if (fd >= 0 && fd < NFD) {
        pthread_mutex_lock(&tmtx);
        memset(&tmr[fd], 0, sizeof tmr[fd]);
        tmr[fd].used = 1; setkd(fd, K_TIMER);
        pthread_mutex_unlock(&tmtx);
    }
    return fd;
}

static uint64_t ts2us(struct timespec t) { return t.tv_sec * 1000000ull + (t.tv_nsec + 999) / 1000; }
static struct timespec us2ts(uint64_t u) { return (struct timespec){u / 1000000, (u % 1000000) * 1000}; }
#define VBASE 1000000000ull  /* virtual CLOCK_MONOTONIC/BOOTTIME origin: 1000 s */

int timerfd_gettime(int fd, struct itimerspec *cur) {
    REAL(int, timerfd_gettime, int, struct itimerspec *);
    if (kd(fd) != K_TIMER) return r_timerfd_gettime(fd, cur);
    pthread_mutex_lock(&tmtx);
    cur->it_interval = us2ts(tmr[fd].ival);
    cur->it_value = us2ts(tmr[fd].armed && tmr[fd].exp > H->vnow ? tmr[fd].exp - H->vnow : 0);
    pthread_mutex_unlock(&tmtx);
    return 0;
}

int timerfd_settime(int fd, int flags, const struct itimerspec *nv, struct itimerspec *old) {
    REAL(int, timerfd_settime, int, int, const struct itimerspec *, struct itimerspec *);
    if (kd(fd) != K_TIMER) return r_timerfd_settime(fd, flags, nv, old);
    if (nv->it_value.tv_nsec < 0 || nv->it_value.tv_nsec > 999999999 || nv->it_value.tv_sec < 0 ||
        nv->it_interval.tv_nsec < 0 || nv->it_interval.tv_nsec > 999999999 || nv->it_interval.tv_sec < 0) {
        errno = EINVAL;
        return -1;
    }
    if (old) timerfd_gettime(fd, old);
    pthread_mutex_lock(&tmtx);
    uint64_t dummy;
    int fl = fcntl(fd, F_GETFL);
    fcntl(fd, F_SETFL, fl | O_NONBLOCK);
    syscall(SYS_read, fd, &dummy, sizeof dummy);   /* settime clears pending expirations */
    fcntl(fd, F_SETFL, fl);
    uint64_t v = ts2us(nv->it_value);
    tmr[fd].ival = ts2us(nv->it_interval);
    tmr[fd].armed = v != 0;
    tmr[fd].exp = (flags & TFD_TIMER_ABSTIME) ? (v > VBASE ? v - VBASE : 0) : H->vnow + v;
    if (tmr[fd].armed && H->mute > 1 && !tmr[fd].ival && (H->mute == 3 || tmr[fd].exp <= H->vnow + 1000) && H->vnow < tmr[fd].exp)
        H->vnow = tmr[fd].exp;
    if (tmr[fd].armed && tmr[fd].exp <= H->vnow) {
        uint64_t n = 1;
        syscall(SYS_write, fd, &n, sizeof n);
        if (tmr[fd].ival) tmr[fd].exp += tmr[fd].ival; else tmr[fd].armed = 0;
    }
    recompute_next();
    pthread_mutex_unlock(&tmtx);
    return 0;
}

#define CBASE 1000000000000ull  /* client: origin of its clocks */
#define CPUQ 10 /* us of virtual CPU per reading of the thread CPU clock */

int clock_gettime(clockid_t clk, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (!H) return r_clock_gettime ? r_clock_gettime(clk, ts) : syscall(SYS_clock_gettime, clk, ts);
    if (clk == CLOCK_THREAD_CPUTIME_ID || clk == CLOCK_PROCESS_CPUTIME_ID) {
        my_cpu += CPUQ;
        atomic_fetch_add(&H->vcpu, CPUQ);
        *ts = us2ts(clk == CLOCK_THREAD_CPUTIME_ID ? my_cpu : H->vcpu);
        return 0;
    }
    if ((clk == CLOCK_MONOTONIC || clk == CLOCK_BOOTTIME || clk == CLOCK_MONOTONIC_RAW) && !log_clock) {
        *ts = us2ts(VBASE + H->vnow);
        return 0;
    }
    if (log_clock) {   /* every reading moves the client's time on a little */
        *ts = us2ts(CBASE + atomic_fetch_add(&H->rt, H->clkstep));
        return 0;
    }
    return r_clock_gettime(clk, ts);
}

static void set_state(int s) { H->thr[tid()].state = s; }

/* client: sleep until virtual time reaches t */
static int vsleep(uint64_t t) {
    if (H->standin) return 0;
    logrec(E_SLEEP, -1, (int64_t)t, 0, 0, 0, NULL, 0);
    H->thr[tid()].waits = t;
    set_state(6);
    for (;;) {
        uint32_t q = H->rtseq;
        if (H->rt >= t) break;
        syscall(SYS_futex, &H->rtseq, FUTEX_WAIT, q, NULL, NULL, 0);
    }
    set_state(1);
    logrec(E_SLEEP, -1, (int64_t)t, 1, 0, 0, NULL, 0);
    return 0;
}

int clock_nanosleep(clockid_t clk, int flags, const struct timespec *rq, struct timespec *rm) {
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
    if (!H || !log_clock) return r_clock_nanosleep(clk, flags, rq, rm);
    uint64_t t = ts2us(*rq);
    if (!(flags & TIMER_ABSTIME)) return vsleep(H->rt + t);
    return vsleep(t > CBASE ? t - CBASE : 0);
}

int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!H || !log_clock) return syscall(SYS_nanosleep, rq, rm);
    return vsleep(H->rt + ts2us(*rq));
}

int usleep(useconds_t us) {
    REAL(int, usleep, useconds_t);
    if (!H || !log_clock) return r_usleep(us);
    return vsleep(H->rt + us);
}

unsigned sleep(unsigned s) {
    REAL(unsigned, sleep, unsigned);
    if (!H || !log_clock) return r_sleep(s);
    return vsleep(H->rt + s * 1000000ull);
}

/* ---------------------------------------------------------------- event loops */
int epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout) {
    REAL(int, epoll_wait, int, struct epoll_event *, int, int);
    if (!H) return r_epoll_wait(epfd, evs, max, timeout);
    int t = tid();
    for (int first = 1;; first = 0) {
        if (H->hold) {
            set_state(4);
            struct timespec d = {0, 100000};
            nanosleep(&d, NULL);
            continue;
        }
        int rv;
        if (first) {
            rv = r_epoll_wait(epfd, evs, max, 0);
        } else {
            rv = r_epoll_wait(epfd, evs, max, timeout < 0 ? 1 : (timeout < 1 ? timeout : 1));
        }
        if (rv != 0) { set_state(1); return rv; }
        if (H->eintr && rnd() % (first ? 100 : 1000) < H->eintr) {
            logrec(E_INTR, -1, 0, 0, 0, 0, NULL, 0);
            set_state(1);
            errno = EINTR;
            return -1;
        }
        if (timeout >= 0 && !first) {
            if (timeout <= 1) { set_state(1); return 0; }
            timeout--;
        }
        H->thr[t].waits++;
        set_state(2);
    }
}

/* ---------------------------------------------------------------- sockets */
static void tune(int fd) {
    int v = (int)H->sndbuf;
    if (v) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
}

int socket(int d, int t, int p) {
    REAL(int, socket, int, int, int);
    int fd = r_socket(d, t, p);
    if (H && fd >= 0 && d == AF_INET) setkd(fd, (t & 0xf) == SOCK_DGRAM ? K_UDP : K_TCPOUT);
    return fd;
}

int listen(int fd, int n) {
    REAL(int, listen, int, int);
    if (H && kd(fd) == K_TCPOUT) setkd(fd, K_LISTEN);
    int rv = r_listen(fd, n);
    if (H) logrec(E_MARK, fd, 1, n, rv, errno, NULL, 0);
    return rv;
}

static int after_accept(int lfd, int fd, const struct sockaddr *sa) {
    if (H && fd >= 0) {
        setkd(fd, K_TCPIN);
        tune(fd);
        logrec(E_ACCEPT, fd, pack_addr(sa), lfd, fd, 0, NULL, 0);
    }
    return fd;
}

int accept(int fd, struct sockaddr *sa, socklen_t *l) {
    REAL(int, accept, int, struct sockaddr *, socklen_t *);
    if (!H) return r_accept(fd, sa, l);
    struct sockaddr_in in; socklen_t il = sizeof in;
    set_state(1);
    int rv = r_accept(fd, (struct sockaddr *)&in, &il);
    if (rv >= 0 && sa && l) { memcpy(sa, &in, *l < sizeof in ? *l : sizeof in); *l = sizeof in; }
    return after_accept(fd, rv, (struct sockaddr *)&in);
}

int accept4(int fd, struct sockaddr *sa, socklen_t *l, int fl) {
    REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
    if (!H) return r_accept4(fd, sa, l, fl);
    struct sockaddr_in in; socklen_t il = sizeof in;
    int rv = r_accept4(fd, (struct sockaddr *)&in, &il, fl);
    if (rv >= 0 && sa && l) { memcpy(sa, &in, *l < sizeof in ? *l : sizeof in); *l = sizeof in; }
    return after_accept(fd, rv, (struct sockaddr *)&in);
}

int connect(int fd, const struct sockaddr *sa, socklen_t l) {
    REAL(int, connect, int, const struct sockaddr *, socklen_t);
    if (!H || kd(fd) == K_NONE) return r_connect(fd, sa, l);
    if (kd(fd) == K_TCPOUT) tune(fd);
    if (H->standin) {
        logrec(E_CONNECT, fd, pack_addr(sa), 0, -1, ECONNREFUSED, NULL, 0);
        errno = ECONNREFUSED;
        return -1;
    }
    rec_t *r = logrec(E_CONNECT, fd, pack_addr(sa), 0, INT64_MIN, 0, NULL, 0);
    int rv = r_connect(fd, sa, l);
    int e = errno;
    struct sockaddr_in me; socklen_t ml = sizeof me;
    if (r) {
        if (getsockname(fd, (struct sockaddr *)&me, &ml) == 0) r->b = pack_addr((struct sockaddr *)&me);
        r->err = rv < 0 ? e : 0; r->rv = rv;
    }
    errno = e;
    return rv;
}

/* thousands of clients a minute: have the port chosen on connecting, where those in TIME_WAIT do not count */
int bind(int fd, const struct sockaddr *sa, socklen_t l) {
    REAL(int, bind, int, const struct sockaddr *, socklen_t);
    int one = 1;
    if (H && H->standin && kd(fd)) {
        logrec(E_BIND, fd, pack_addr(sa), 0, 0, 0, NULL, 0);
        return 0;
    }
    if (H && kd(fd) == K_TCPOUT && sa->sa_family == AF_INET && ((const struct sockaddr_in *)sa)->sin_port == 0)
        setsockopt(fd, IPPROTO_IP, 24 /* IP_BIND_ADDRESS_NO_PORT */, &one, sizeof one);
    return r_bind(fd, sa, l);
}

/* names are looked up in DWSHIM_HOSTS ("name=1.2.3.4,...") and nowhere else */
static const char *lookup(const char *name, char buf[64]) {
    const char *h = getenv("DWSHIM_HOSTS");
    size_t n = name ? strlen(name) : 0;
    struct in_addr a;
    if (!H || !h || !n || inet_pton(AF_INET, name, &a) == 1) return name;
    for (; *h; h += strcspn(h, ","), h += *h == ',')
        if (strncmp(h, name, n) == 0 && h[n] == '=') {
            snprintf(buf, 64, "%.*s", (int)strcspn(h + n + 1, ","), h + n + 1);
            return buf;
        }
    return NULL;
}
struct hostent *gethostbyname(const char *name) {
    REAL(struct hostent *, gethostbyname, const char *);
    char b[64];
    const char *n = lookup(name, b);
    if (!n) { h_errno = HOST_NOT_FOUND; return NULL; }
    return r_gethostbyname(n);
}
int getaddrinfo(const char *name, const char *serv, const struct addrinfo *hints, struct addrinfo **res) {
    REAL(int, getaddrinfo, const char *, const char *, const struct addrinfo *, struct addrinfo **);
    char b[64];
    const char *n = lookup(name, b);
    return name && !n ? EAI_NONAME : r_getaddrinfo(n, serv, hints, res);
}

int close(int fd) {
    REAL(int, close, int);
    if (H && kd(fd)) {
        int k = kd(fd);
        logrec(E_CLOSE, fd, 0, 0, 0, 0, NULL, 0);
        if (k == K_TIMER) { pthread_mutex_lock(&tmtx); tmr[fd].used = 0; recompute_next(); pthread_mutex_unlock(&tmtx); }
        setkd(fd, K_NONE);
    }
    return r_close ? r_close(fd) : syscall(SYS_close, fd);
}

int shutdown(int fd, int how) {
    REAL(int, shutdown, int, int);
    if (H && kd(fd)) logrec(E_SHUT, fd, how, 0, 0, 0, NULL, 0);
    return r_shutdown(fd, how);
}

static int sockkind(int fd) { int k = kd(fd); return k == K_TCPIN || k == K_TCPOUT || k == K_UDP; }

static ssize_t do_recv(int fd, void *buf, size_t n, int flags, struct sockaddr *sa, socklen_t *l) {
    REAL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
    if (!sockkind(fd)) return r_recvfrom(fd, buf, n, flags, sa, l);
    size_t lim = n;
    uint64_t mx = H->recv_max;
    if (mx && kd(fd) != K_UDP && lim > 0) {
        uint64_t c = 1 + rnd() % mx;
        if (c < lim) lim = c;
    }
    struct sockaddr_in in; socklen_t il = sizeof in;
    memset(&in, 0, sizeof in);
    ssize_t rv = r_recvfrom(fd, buf, lim, flags, (struct sockaddr *)&in, &il);
    int e = errno;
    if (rv > 0 || (rv == 0 && (n > 0 || kd(fd) == K_UDP)) || (rv < 0 && e != EAGAIN && e != EWOULDBLOCK))
        logrec(E_RECV, fd, kd(fd) == K_UDP ? pack_addr((struct sockaddr *)&in) : 0, (int64_t)n, rv, rv < 0 ? e : 0,
               buf, rv > 0 ? rv : 0);
    if (rv < 0 && log_clock && (e == EAGAIN || e == EWOULDBLOCK)) {   /* a busy wait would never come to rest */
        struct pollfd pf = {fd, POLLIN, 0};
        poll(&pf, 1, -1);
    }
    if (rv >= 0 && sa && l && il) { memcpy(sa, &in, *l < il ? *l : il); }
    if (l) *l = il;
    errno = e;
    return rv;
}

static ssize_t do_send(int fd, const void *buf, size_t n, int flags, const struct sockaddr *sa, socklen_t l) {
    REAL(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t);
    if (!sockkind(fd)) return r_sendto(fd, buf, n, flags, sa, l);
    size_t lim = n;
    uint64_t p = H->send_eagain;
    int nb = fcntl(fd, F_GETFL) & O_NONBLOCK;
    if (p && nb && rnd() % 100 < p) { errno = EAGAIN; return -1; }
    if (kd(fd) != K_UDP) {
        uint64_t mx = H->send_max;
        if (mx && nb && lim > 0) { uint64_t c = 1 + rnd() % mx; if (c < lim) lim = c; }
    }
    if (H->watch && kd(fd) != K_UDP) {
        int v = -1; socklen_t vl = sizeof v;
        getsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &v, &vl);
        logrec(E_OPT, fd, v, 0, 0, 0, NULL, 0);
    }
    /* the record precedes the call so that nothing caused by it can be ordered before it */
    rec_t *r = logrec(E_SEND, fd, pack_addr(sa), (int64_t)lim, INT64_MIN, 0, buf, lim);
    ssize_t rv = r_sendto(fd, buf, lim, flags | MSG_NOSIGNAL, sa, l);
    int e = errno;
    if (r) {
        if (rv >= 0 || e == EAGAIN || e == EWOULDBLOCK) {   /* give back the room of what was not taken */
            uint64_t need = (sizeof(rec_t) + (rv > 0 ? rv : 0) + 7) & ~7ull;
            while (atomic_flag_test_and_set_explicit(&lk, memory_order_acquire)) sched_yield();
            if (LOGB + H->log_off == (uint8_t *)r + r->len) {
                r->len = need;
                atomic_store_explicit(&H->log_off, (uint64_t)((uint8_t *)r - (uint8_t *)LOGB) + need, memory_order_release);
            }
            atomic_flag_clear_explicit(&lk, memory_order_release);
        }
        r->err = rv < 0 ? e : 0;
        atomic_thread_fence(memory_order_release);
        r->rv = rv;
    }
    errno = e;
    return rv;
}

ssize_t recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *restrict sa, socklen_t *restrict l) { return do_recv(fd, b, n, f, sa, l); }
ssize_t recv(int fd, void *b, size_t n, int f) { return do_recv(fd, b, n, f, NULL, NULL); }
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *sa, socklen_t l) { return do_send(fd, b, n, f, sa, l); }
ssize_t send(int fd, const void *b, size_t n, int f) { return do_send(fd, b, n, f, NULL, 0); }

/* ---------------------------------------------------------------- storage file */
static void disk_gate(void) {
    if (H->disk_credit < 0) return;
    atomic_fetch_add(&H->disk_waiting, 1);
    for (;;) {
        int64_t c = H->disk_credit;
        set_state(1);
        if (c < 0) break;
        if (c > 0 && atomic_compare_exchange_strong(&H->disk_credit, &c, c - 1)) break;
        set_state(3);
        struct timespec d = {0, 100000};
        nanosleep(&d, NULL);
    }
    atomic_fetch_sub(&H->disk_waiting, 1);
}

static ssize_t disk_io(int fd, int type, void *buf, size_t n, off_t at) {
    disk_gate();
    uint64_t mx = H->disk_short;
    size_t lim = n;
    if (mx && lim > mx) lim = mx;
    off_t pos = at >= 0 ? at : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    ssize_t rv;
    if (at >= 0) rv = syscall(type == E_WRITE ? SYS_pwrite64 : SYS_pread64, fd, buf, lim, at);
    else rv = syscall(type == E_WRITE ? SYS_write : SYS_read, fd, buf, lim);
    int e = errno;
    logrec(type, fd, pos, (int64_t)n, rv, rv < 0 ? e : 0, NULL, 0);
    errno = e;
    return rv;
}

ssize_t write(int fd, const void *b, size_t n) {
    int k = kd(fd);
    if (k == K_STORE) return disk_io(fd, E_WRITE, (void *)b, n, -1);
    if (sockkind(fd)) return do_send(fd, b, n, 0, NULL, 0);
    REAL(ssize_t, write, int, const void *, size_t);
    return r_write ? r_write(fd, b, n) : syscall(SYS_write, fd, b, n);
}

ssize_t read(int fd, void *b, size_t n) {
    int k = kd(fd);
    if (k == K_STORE) return disk_io(fd, E_READ, b, n, -1);
    if (sockkind(fd)) return do_recv(fd, b, n, 0, NULL, NULL);
    REAL(ssize_t, read, int, void *, size_t);
    return r_read ? r_read(fd, b, n) : syscall(SYS_read, fd, b, n);
}

ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    if (kd(fd) == K_STORE) return disk_io(fd, E_WRITE, (void *)b, n, o);
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }

ssize_t pread(int fd, void *b, size_t n, off_t o) {
    if (kd(fd) == K_STORE) return disk_io(fd, E_READ, b, n, o);
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }

static ssize_t join(int fd, int type, const struct iovec *iov, int cnt) {
    ssize_t tot = 0;
    for (int i = 0; i < cnt; i++) {
        ssize_t rv = type == E_WRITE || type == E_READ ? disk_io(fd, type, iov[i].iov_base, iov[i].iov_len, -1)
                   : type == E_SEND ? do_send(fd, iov[i].iov_base, iov[i].iov_len, 0, NULL, 0)
                   : do_recv(fd, iov[i].iov_base, iov[i].iov_len, 0, NULL, NULL);
        if (rv < 0) return tot ? tot : rv;
        tot += rv;
        if ((size_t)rv < iov[i].iov_len) break;
    }
    return tot;
}

ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (kd(fd) == K_STORE) return join(fd, E_WRITE, iov, cnt);
    if (sockkind(fd)) return join(fd, E_SEND, iov, cnt);
    return syscall(SYS_writev, fd, iov, cnt);
}
ssize_t readv(int fd, const struct iovec *iov, int cnt) {
    if (kd(fd) == K_STORE) return join(fd, E_READ, iov, cnt);
    if (sockkind(fd)) return join(fd, E_RECV, iov, cnt);
    return syscall(SYS_readv, fd, iov, cnt);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    if (sockkind(fd)) {
        if (m->msg_iovlen == 1)
            return do_send(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, m->msg_name, m->msg_namelen);
        return join(fd, E_SEND, m->msg_iov, m->msg_iovlen);
    }
    return syscall(SYS_sendmsg, fd, m, fl);
}

static int do_sync(int fd, int nr) {
    if (kd(fd) == K_STORE) {
        disk_gate();
        int rv = syscall(nr, fd);
        logrec(E_FSYNC, fd, 0, 0, rv, rv < 0 ? errno : 0, NULL, 0);
        return rv;
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_open(int dfd, const char *p, int fl, mode_t mode) {
    int st = H && store_path[0] && !strcmp(p, store_path);
    if (st) fl &= ~(O_DIRECT);
    int fd = syscall(SYS_openat, dfd, p, fl, mode);
    if (st && fd >= 0) { setkd(fd, K_STORE); logrec(E_TRUNC, fd, fl, 0, 0, 0, NULL, 0); }
    return fd;
}
#define OPENBODY(dfd) mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return do_open(dfd, p, fl, m)
int open(const char *p, int fl, ...) { OPENBODY(AT_FDCWD); }
int open64(const char *p, int fl, ...) { OPENBODY(AT_FDCWD); }
int openat(int dfd, const char *p, int fl, ...) { OPENBODY(dfd); }
int openat64(int dfd, const char *p, int fl, ...) { OPENBODY(dfd); }

/* ---------------------------------------------------------------- placement */
long syscall(long nr, ...) {
    long a[6];
    va_list ap;
    va_start(ap, nr);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (H && H->watch && nr == SYS_sched_setattr) {
        logrec(E_SCHED, -1, a[0], a[2], 0, 0, (void *)a[1], *(uint32_t *)a[1]);
        return 0;
    }
    register long r10 __asm__("r10") = a[3], r8 __asm__("r8") = a[4], r9 __asm__("r9") = a[5];
    long rv;
    __asm__ volatile("syscall" : "=a"(rv) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (rv < 0 && rv > -4096) { errno = -rv; return -1; }
    return rv;
}
long sysconf(int name) {
    REAL(long, sysconf, int);
    if (H && H->ncpu && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return H->ncpu;
    return r_sysconf(name);
}

static int log_aff(pid_t tid, size_t n, const cpu_set_t *set) {
    int64_t w[4] = {0};
    for (int i = 0; i < 256 && (size_t)i < n * 8; i++)
        if (CPU_ISSET(i, set)) w[i / 64] |= 1ll << (i % 64);
    logrec(E_AFF, -1, w[0], w[1], 0, 0, (char *)&tid, sizeof tid);
    return 0;
}
int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *set) {
    REAL(int, pthread_setaffinity_np, pthread_t, size_t, const cpu_set_t *);
    if (H && H->ncpu) return log_aff(pthread_equal(t, pthread_self()) ? (pid_t)syscall(SYS_gettid) : 0, n, set);
    return r_pthread_setaffinity_np(t, n, set);
}
int sched_setaffinity(pid_t p, size_t n, const cpu_set_t *set) {
    REAL(int, sched_setaffinity, pid_t, size_t, const cpu_set_t *);
    if (H && H->ncpu) return log_aff(p ? p : (pid_t)syscall(SYS_gettid), n, set);
    return r_sched_setaffinity(p, n, set);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *set) {
    REAL(int, sched_getaffinity, pid_t, size_t, cpu_set_t *);
    if (H && H->ncpu) {
        memset(set, 0, n);
        for (uint64_t i = 0; i < H->ncpu && i < n * 8; i++) CPU_SET(i, set);
        return 0;
    }
    return r_sched_getaffinity(p, n, set);
}

/* ---------------------------------------------------------------- big buffers
 * Blocks of 1 MB and more get their own mapping.  A freed one stays mapped with
 * no access for long, so a use after free faults instead of reading stale data.
 */
#define BIG (1u << 20)
#define NBIG 32768
#define NOLD 4096
extern void *__libc_calloc(size_t, size_t);
extern void __libc_free(void *);
extern void *__libc_malloc(size_t);
static struct { void *p; size_t n; } big[NBIG], old[NOLD];
static int nbig;                         /* entries ever used */
static unsigned nold;
static atomic_flag blk = ATOMIC_FLAG_INIT;

static void *big_alloc(size_t n) {
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    while (atomic_flag_test_and_set_explicit(&blk, memory_order_acquire)) sched_yield();
    int i = 0;
    while (i < nbig && big[i].p) i++;
    if (i < NBIG) {
        big[i].n = n; big[i].p = p;
        if (i == nbig) nbig++;
    }
    atomic_flag_clear_explicit(&blk, memory_order_release);
    if (i == NBIG) { munmap(p, n); return NULL; }
    return p;
}
void *calloc(size_t a, size_t b) {
    if (H && a * b >= BIG) return big_alloc(a * b);
    return __libc_calloc(a, b);
}
void free(void *p) {
    if (H && p && ((uintptr_t)p & 4095) == 0) {
        while (atomic_flag_test_and_set_explicit(&blk, memory_order_acquire)) sched_yield();
        int i = 0;
        while (i < nbig && big[i].p != p) i++;
        if (i < nbig) {
            mmap(p, big[i].n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
            if (old[nold % NOLD].p) munmap(old[nold % NOLD].p, old[nold % NOLD].n);
            old[nold % NOLD].p = p; old[nold++ % NOLD].n = big[i].n;
            big[i].p = NULL;
        }
        atomic_flag_clear_explicit(&blk, memory_order_release);
        if (i < nbig) return;
    }
    __libc_free(p);
}

/* ---------------------------------------------------------------- control */
static void *ctl_loop(void *arg) {
    (void)arg;
    H->ctltid = syscall(SYS_gettid);
    for (;;) {
        char cmd[16];
        size_t got = 0;
        while (got < 16) {
            ssize_t n = syscall(SYS_read, ctlfd, cmd + got, 16 - got);
            if (n <= 0) return NULL;
            got += n;
        }
        uint64_t arg;
        memcpy(&arg, cmd + 8, 8);
        if (cmd[0] == 'T') tick_to(arg);
        else if (cmd[0] == 'R') {
            if (H->rt < arg) H->rt = arg;
            logrec(E_TICK, -1, (int64_t)arg, 0, 0, 0, NULL, 0);
            atomic_fetch_add(&H->rtseq, 1);
            syscall(SYS_futex, &H->rtseq, FUTEX_WAKE, 1 << 30, NULL, NULL, 0);
        }
        else if (cmd[0] == 'M') logrec(E_MARK, -1, 2, (int64_t)arg, 0, 0, NULL, 0);
        else if (cmd[0] == 'Q') {
            uint64_t mx = 0;
            for (int i = 0; i < NFD; i++) {
                int v = 0;
                if ((kind[i] == K_TCPIN || kind[i] == K_TCPOUT) && ioctl(i, SIOCOUTQ, &v) == 0 && (uint64_t)v > mx) mx = v;
            }
            H->outq = mx;
        }
        char ok = 'k';
        if (cmd[0] == 'W') {   /* start the log over if the driver has read all of it */
            while (atomic_flag_test_and_set_explicit(&lk, memory_order_acquire)) sched_yield();
            if (H->log_off == arg) H->log_off = 0; else ok = 'n';
            atomic_flag_clear_explicit(&lk, memory_order_release);
        }
        syscall(SYS_write, ctlfd, &ok, 1);
    }
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("DWSHIM_SHM");
    if (!p) return;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR);
    if (fd < 0) { perror("shim: shm"); _exit(97); }
    struct stat st;
    fstat(fd, &st);
    void *m = mmap(NULL, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) _exit(97);
    LOGB = (unsigned char *)m + HDR_BYTES;
    LOGSZ = st.st_size - HDR_BYTES;
    if (getenv("DWSHIM_STORE")) snprintf(store_path, sizeof store_path, "%s", getenv("DWSHIM_STORE"));
    if (getenv("DWSHIM_CLOCK")) log_clock = 1;
    if (getenv("DWSHIM_SEQ")) {
        fd = syscall(SYS_openat, AT_FDCWD, getenv("DWSHIM_SEQ"), O_RDWR);
        SEQ = fd < 0 ? MAP_FAILED : mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (SEQ == MAP_FAILED) _exit(97);
        syscall(SYS_close, fd);
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
    H = m;
    tid();
    const char *c = getenv("DWSHIM_CTL");
    if (c) {
        ctlfd = atoi(c);
        sigset_t all, old;
        sigfillset(&all);
        pthread_sigmask(SIG_SETMASK, &all, &old);
        pthread_t t;
        pthread_create(&t, NULL, ctl_loop, NULL);
        pthread_detach(t);
        pthread_sigmask(SIG_SETMASK, &old, NULL);
    }
    H->magic = 0xD157;
}
