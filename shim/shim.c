/* Link-time instrumentation for icbd (ld --wrap): virtual clock, barrier on
 * the event loop, deterministic name resolution, socket fault injection and
 * event counters.  Active only when VERIF_CTL names an inherited descriptor;
 * otherwise every wrapper forwards to libc.  It depends on libc calls only,
 * not on any icbd identifier. */
#define _GNU_SOURCE
#include <poll.h>
#include <time.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <signal.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <dirent.h>
#include <stdint.h>
#include <fcntl.h>
#include <stdarg.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
size_t __sanitizer_get_current_allocated_bytes(void);
#define HEAP ((unsigned long)__sanitizer_get_current_allocated_bytes())
#endif
#endif
#ifndef HEAP
#define HEAP 0ul
#endif

int __real_poll(struct pollfd *, nfds_t, int);
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_getnameinfo(const struct sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int);
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __real_gethostname(char *, size_t);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_send(int, const void *, size_t, int);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_close(int);
pid_t __real_fork(void);
int __real_open(const char *, int, ...);
int __real_rename(const char *, const char *);
int __real_unlink(const char *);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __real_execve(const char *, char *const [], char *const []);

static int inited, ctl = -1;
static int64_t vnow;              /* virtual microseconds; 0 = real clock */
static int pending, rounds, busy;
static unsigned long n_poll, n_ev, n_read, n_write, n_accept, n_close, n_inj;
static unsigned char issock[4096];
static int sndbuf;                /* send buffer of accepted sockets, 0: as the program sets it */
static int rlimit_bytes, wlimit_bytes, r_again, w_again; /* fault knobs */
static uint32_t rng = 1;
static char newconns[32768];      /* "fd:host.port " of accepts since the last ack */
static int newlen;
/* user database i/o: descriptor kind, event log, crash/fault injection */
static unsigned char isdb[4096];
static int dblog = -1, db_mode;
static long db_n, db_count;

/* what the event loop did, in order: reads, ends of input, closes, turns */
static char evlog[100000];
static int evlen, evon, evlost;
static void ev(char k, int fd, long n)
{
    if (!evon) return;
    if (k == 'P' && evlen > 0 && evlen >= 2 && evlog[evlen - 2] == 'P') return;
    if (evlen > (int)sizeof evlog - 64) { evlost = 1; return; }
    if (k == 'P') evlen += snprintf(evlog + evlen, 40, "P;");
    else if (k == 'R' || k == 'W') evlen += snprintf(evlog + evlen, 40, "%c%d,%ld;", k, fd, n);
    else evlen += snprintf(evlog + evlen, 40, "%c%d;", k, fd);
}

static uint32_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5; return rng; }

static const char *dns;
static void init(void)
{
    const char *e;
    if (inited) return;
    inited = 1;
    e = getenv("VERIF_CTL");
    if (e) { ctl = atoi(e); prctl(PR_SET_PDEATHSIG, SIGKILL); }
    e = getenv("VERIF_DBLOG");
    if (e) dblog = atoi(e);
    e = getenv("VERIF_DBFAULT");
    if (e) sscanf(e, "%d %ld", &db_mode, &db_n);
    dns = getenv("VERIF_DNS");
    e = getenv("VERIF_T0");
    if (e) vnow = atoll(e);
}

time_t __wrap_time(time_t *t)
{
    time_t r;
    init();
    if (!vnow) return __real_time(t);
    r = vnow / 1000000;
    if (t) *t = r;
    return r;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    init();
    if (!vnow) return __real_gettimeofday(tv, tz);
    tv->tv_sec = vnow / 1000000; tv->tv_usec = vnow % 1000000;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    init();
    if (!vnow) return __real_clock_gettime(c, ts);
    ts->tv_sec = vnow / 1000000; ts->tv_nsec = (vnow % 1000000) * 1000;
    return 0;
}
int __wrap_gethostname(char *b, size_t n)
{
    init();
    if (ctl < 0) return __real_gethostname(b, n);
    snprintf(b, n, "icb.test");
    return 0;
}

/* 127.0.0.1 -> localhost, 127.0.0.2-9 -> hN.test, 127.0.0.20-29 -> name whose
 * forward lookup disagrees, 127.0.0.30 -> 64-char name, rest unresolvable;
 * an IPv4-mapped address is the IPv4 one, and ::1 counts as number 61 (v6.test) */
#define SIX 61
static int v4of(const struct sockaddr *sa)
{
    if (sa->sa_family == AF_INET) {
        uint32_t a = ntohl(((const struct sockaddr_in *)sa)->sin_addr.s_addr);
        if ((a >> 8) == 0x7f0000) return a & 255;
    }
    if (sa->sa_family == AF_INET6) {
        const struct in6_addr *a = &((const struct sockaddr_in6 *)sa)->sin6_addr;
        if (IN6_IS_ADDR_LOOPBACK(a)) return SIX;
        if (IN6_IS_ADDR_V4MAPPED(a) && !memcmp(a->s6_addr + 12, "\x7f\0\0", 3)) return a->s6_addr[15];
    }
    return -1;
}
/* or, with VERIF_DNS, what that says: "22>name;" the name of 127.0.0.22 ('!': no answer now), "name=2,22;" the addresses of a name */
static const char *dns_find(int n, const char *name)
{
    const char *p;
    char num[16];
    size_t l;
    snprintf(num, sizeof num, "%d", n);
    if (!name) name = num;
    l = strlen(name);
    for (p = dns; p && *p; p = strchr(p, ';') + 1)
        if (!strncasecmp(p, name, l) && p[l] == (n < 0 ? '=' : '>')) return p + l + 1;
    return NULL;
}
#define LONGHOST "a-very-long-host-name-indeed.with-a-very-long-domain-name.ex.test"
int __wrap_getnameinfo(const struct sockaddr *sa, socklen_t sl, char *h, socklen_t hl,
                       char *s, socklen_t svl, int fl)
{
    int n;
    init();
    if (ctl < 0 || (fl & NI_NUMERICHOST)) return __real_getnameinfo(sa, sl, h, hl, s, svl, fl);
    n = v4of(sa);
    if (dns) {
        const char *p = dns_find(n, NULL), *e;
        if (!p || !h) return EAI_NONAME;
        if (*p == '!') return EAI_AGAIN;
        e = strchr(p, ';');
        if ((socklen_t)(e - p) >= hl) return EAI_OVERFLOW;
        memcpy(h, p, e - p);
        h[e - p] = 0;
        return 0;
    }
    if (n == 1) { snprintf(h, hl, "localhost"); return 0; }
    if (n >= 2 && n <= 9) { snprintf(h, hl, "h%d.test", n); return 0; }
    if (n == 52) { snprintf(h, hl, "h2.test.org"); return 0; }
    if (n >= 20 && n <= 29) { snprintf(h, hl, "spoof.test"); return 0; }
    if (n == 30) { snprintf(h, hl, LONGHOST); return 0; }
    if (n == SIX) { snprintf(h, hl, "v6.test"); return 0; }
    return EAI_NONAME;
}
int __wrap_getaddrinfo(const char *node, const char *svc, const struct addrinfo *hi, struct addrinfo **res)
{
    char num[64];
    int n;
    init();
    if (ctl >= 0 && node && dns && !(hi && (hi->ai_flags & AI_PASSIVE))) {
        const char *p = dns_find(-1, node);
        struct addrinfo **tail = res;
        if (p) {                                /* all the addresses of the name, in the order given */
            *res = NULL;
            for (; *p >= '0' && *p <= '9'; p += *p == ',') {
                n = strtol(p, (char **)&p, 10);
                snprintf(num, sizeof num, n == SIX ? "::1" : "127.0.0.%d", n);
                if (__real_getaddrinfo(num, svc, hi, tail)) continue;
                while (*tail) tail = &(*tail)->ai_next;
            }
            return *res ? 0 : EAI_NONAME;
        }
        if (strspn(node, "0123456789.") != strlen(node)) return EAI_NONAME;
    }
    else if (ctl >= 0 && node) {
        if (!strcmp(node, "localhost")) node = "127.0.0.1";
        else if (sscanf(node, "h%d.test", &n) == 1 && strlen(node) == 7) { snprintf(num, sizeof num, "127.0.0.%d", n); node = num; }
        else if (!strcmp(node, "h2.test.org")) node = "127.0.0.52";
        else if (!strcmp(node, "spoof.test")) node = "127.0.0.99";
        else if (!strcmp(node, LONGHOST)) node = "127.0.0.30";
        else if (!strcmp(node, "v6.test")) node = "::1";
    }
    return __real_getaddrinfo(node, svc, hi, res);
}

int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
    int r = __real_accept(fd, a, l);
    init();
    if (r >= 0 && ctl >= 0) {
        int one = 1;
        __real_setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        if (sndbuf) __real_setsockopt(r, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
    }
    if (r >= 0) {
        n_accept++;
        if (r < 4096) issock[r] = 1;
        if (ctl >= 0) {
            struct sockaddr_storage p;
            socklen_t pl = sizeof p;
            memset(&p, 0, sizeof p);
            getpeername(r, (struct sockaddr *)&p, &pl);
            if (newlen < (int)sizeof newconns - 64)
                newlen += snprintf(newconns + newlen, 64, " %d:%u.%u", r, (unsigned)v4of((struct sockaddr *)&p), ntohs(((struct sockaddr_in *)&p)->sin_port));
        }
    }
    return r;
}

int __wrap_setsockopt(int fd, int lev, int opt, const void *v, socklen_t l)
{
    if (ctl >= 0 && sndbuf && lev == SOL_SOCKET && opt == SO_SNDBUF) return 0;
    return __real_setsockopt(fd, lev, opt, v, l);
}

/* ---- user database ---- */
static void dbev(const char *fmt, const char *a, const char *b, long n)
{
    char buf[512];
    int k;
    if (dblog < 0) return;
    k = snprintf(buf, sizeof buf, fmt, a, b, n);
    (void)!__real_write(dblog, buf, k);
}
/* 0: go on; 1: fail; 2: cut the write short and die */
static int dbfault(const char *what)
{
    db_count++;
    if (!db_mode || db_count != db_n) return 0;
    switch (db_mode) {
    case 1: dbev("crash-before %s%s %ld\n", what, "", db_count); _exit(70);
    case 2: if (!strcmp(what, "write")) return 2; dbev("crash-before %s%s %ld\n", what, "", db_count); _exit(70);
    case 3: dbev("fail %s%s %ld\n", what, "", db_count); n_inj++; errno = ENOSPC; return 1;
    }
    return 0;
}
static int isdbpath(const char *p) { return strstr(p, "icbdb") != NULL; }
int __wrap_open(const char *path, int fl, ...)
{
    int r, mode = 0;
    va_list ap;
    init();
    va_start(ap, fl);
    if (fl & O_CREAT) mode = va_arg(ap, int);
    va_end(ap);
    if (ctl >= 0 && isdbpath(path) && (fl & (O_WRONLY | O_RDWR))) {
        if (dbfault("open")) return -1;
        r = __real_open(path, fl, mode);
        if (r >= 0 && r < 4096) isdb[r] = 1;
        dbev((fl & O_TRUNC) ? "open-trunc %s%s %ld\n" : "open %s%s %ld\n", path, "", r);
        return r;
    }
    return __real_open(path, fl, mode);
}
int __wrap_rename(const char *a, const char *b)
{
    int r;
    init();
    if (ctl < 0 || !isdbpath(b)) return __real_rename(a, b);
    if (dbfault("rename")) return -1;
    r = __real_rename(a, b);
    dbev("rename %s %s %ld\n", a, b, r);
    return r;
}
int __wrap_unlink(const char *a)
{
    int r;
    init();
    if (ctl < 0 || !isdbpath(a)) return __real_unlink(a);
    if (dbfault("unlink")) return -1;
    r = __real_unlink(a);
    dbev("unlink %s%s %ld\n", a, "", r);
    return r;
}
int __wrap_fsync(int fd)
{
    int r;
    init();
    if (fd < 0 || fd >= 4096 || !isdb[fd]) return __real_fsync(fd);
    if (dbfault("fsync")) return -1;
    r = __real_fsync(fd);
    dbev("fsync%s%s %ld\n", "", "", fd);
    return r;
}
int __wrap_fdatasync(int fd)
{
    int r;
    init();
    if (fd < 0 || fd >= 4096 || !isdb[fd]) return __real_fdatasync(fd);
    if (dbfault("fsync")) return -1;
    r = __real_fdatasync(fd);
    dbev("fsync%s%s %ld\n", "", "", fd);
    return r;
}
extern char **environ;
int __wrap_execve(const char *p, char *const argv[], char *const envp[])
{
    /* icbd's restart passes a minimal environment: keep the monitors in it */
    char *e[64], t0[64];
    int i, n = 0;
    init();
    if (ctl < 0) return __real_execve(p, argv, envp);
    for (i = 0; envp && envp[i] && n < 20; i++) e[n++] = envp[i];
    for (i = 0; environ[i] && n < 60; i++) {
        if (!strncmp(environ[i], "VERIF_T0=", 9)) continue;
        if (!strncmp(environ[i], "VERIF_", 6) || strstr(environ[i], "SAN_") || !strncmp(environ[i], "TZ=", 3)) e[n++] = environ[i];
    }
    snprintf(t0, sizeof t0, "VERIF_T0=%lld", (long long)vnow);
    e[n++] = t0;
    e[n] = NULL;
    return __real_execve(p, argv, e);
}
int __wrap_close(int fd)
{
    init();
    if (fd >= 0 && fd < 4096 && issock[fd]) { issock[fd] = 0; n_close++; ev('C', fd, 0); }
    if (fd >= 0 && fd < 4096 && isdb[fd]) { isdb[fd] = 0; dbfault("close"); dbev("close%s%s %ld\n", "", "", fd); }
    return __real_close(fd);
}
/* (the server gives up on a client after a number of attempts without getting a
 * packet out, and queues only a few packets for it: after a few interferences
 * with writing leave it alone for a while) */
static unsigned char wrow[4096];
static ssize_t lim(int fd, size_t n, int cap, int again, int *blocked, int wr)
{
    *blocked = 0;
    if (ctl < 0 || fd < 0 || fd >= 4096 || !issock[fd]) return n;
    if (wr && wrow[fd] >= 4) { if (++wrow[fd] >= 24) wrow[fd] = 0; return n; }
    if (again && (int)(rnd() % 100) < again) { *blocked = 1; n_inj++; if (wr) wrow[fd]++; return n; }
    if (cap && n > 1) {
        size_t c = 1 + rnd() % cap;
        if (c < n) { n = c; n_inj++; if (wr) wrow[fd]++; return n; }
    }
    return n;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    int bl; ssize_t r; size_t m = lim(fd, n, rlimit_bytes, r_again, &bl, 0);
    if (bl) { errno = EAGAIN; return -1; }
    r = __real_read(fd, b, m);
    if (fd >= 0 && fd < 4096 && issock[fd]) {
        if (r > 0) { n_read += r; ev('R', fd, r); }
        else if (n && (r == 0 || (errno != EAGAIN && errno != EINTR))) { int e = errno; ev('E', fd, 0); errno = e; }
    }
    return r;
}
/* TLS: what the program gets from the library */
struct ssl_st;
int __real_SSL_read(struct ssl_st *, void *, int) __attribute__((weak));
int SSL_get_fd(const struct ssl_st *) __attribute__((weak));
int __wrap_SSL_read(struct ssl_st *c, void *b, int n)
{
    int r = __real_SSL_read(c, b, n), e = errno;
    if (evon && r > 0) ev('R', SSL_get_fd(c), r);
    errno = e;
    return r;
}
int __real_SSL_write(struct ssl_st *, const void *, int) __attribute__((weak));
int __wrap_SSL_write(struct ssl_st *c, const void *b, int n)
{
    int r = __real_SSL_write(c, b, n), e = errno;
    if (evon > 1) ev(r > 0 ? 'W' : 'F', SSL_get_fd(c), r);
    errno = e;
    return r;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f)
{
    int bl; ssize_t r; size_t m = lim(fd, n, rlimit_bytes, r_again, &bl, 0);
    if (bl) { errno = EAGAIN; return -1; }
    r = __real_recv(fd, b, m, f);
    if (r > 0) { n_read += r; if (!(f & MSG_PEEK)) ev('R', fd, r); }
    else if (n && (r == 0 || (errno != EAGAIN && errno != EINTR))) { int e = errno; ev('E', fd, 0); errno = e; }
    return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    int bl; ssize_t r; size_t m = lim(fd, n, wlimit_bytes, w_again, &bl, 1);
    if (bl) { if (evon > 1) ev('F', fd, 0); errno = EAGAIN; return -1; }
    if (fd >= 0 && fd < 4096 && isdb[fd]) {
        int k = dbfault("write");
        if (k == 1) return -1;
        if (k == 2) { (void)!__real_write(fd, b, n / 2); dbev("crash-in write%s%s %ld\n", "", "", db_count); _exit(70); }
        r = __real_write(fd, b, db_mode == 4 && n > 1 ? 1 + rnd() % (n - 1) : n);
        dbev("write%s%s %ld\n", "", "", fd);
        return r;
    }
    r = __real_write(fd, b, m);
    if (fd >= 0 && fd < 4096 && issock[fd]) {
        int e = errno;
        if (r > 0) n_write += r;
        if (evon > 1) ev(r > 0 ? 'W' : 'F', fd, r);
        errno = e;
    }
    return r;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int f)
{
    int bl; ssize_t r; size_t m = lim(fd, n, wlimit_bytes, w_again, &bl, 1);
    if (bl) { if (evon > 1) ev('F', fd, 0); errno = EAGAIN; return -1; }
    r = __real_send(fd, b, m, f);
    { int e = errno; if (r > 0) n_write += r; if (evon > 1) ev(r > 0 ? 'W' : 'F', fd, r); errno = e; }
    return r;
}
pid_t __wrap_fork(void)
{
    pid_t p;
    init();
    p = __real_fork();
    /* in a forked *parent* (icbd's restart forks and lets the parent exit),
     * give up the control channel: the child carries on with it */
    if (p > 0) ctl = -1;
    return p;
}

static int count_fds(void)
{
    int i, n = 0;
    for (i = 0; i < 1024; i++) if (i != ctl && fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
static void ack(int isbusy)
{
    static char b[140000];
    int k = snprintf(b, sizeof b, "A %d %lu %lu %lu %lu %lu %lu %lu %d %lld %ld %lu%.*s |%s%.*s\n", isbusy, n_poll, n_ev,
                     n_read, n_write, n_accept, n_close, n_inj, count_fds(), (long long)vnow, db_count, HEAP, newlen, newconns,
                     evlost ? "!" : "", evlen, evlog);
    newlen = 0; evlen = evlost = 0;
    (void)!__real_write(ctl, b, k);
    pending = 0; rounds = 0; busy = 0;
}
static void command(void)
{
    char b[256];
    ssize_t k = __real_recv(ctl, b, sizeof b - 1, MSG_DONTWAIT);
    if (k == 0) { _exit(77); } /* driver is gone: never outlive it */
    if (k < 0) return;
    b[k] = 0;
    switch (b[0]) {
    case 'B': break;
    case 'T': vnow = atoll(b + 1); break;
    case 'F': {
        unsigned s = 1;
        sscanf(b + 1, "%d %d %d %d %u", &rlimit_bytes, &wlimit_bytes, &r_again, &w_again, &s);
        rng = s ? s : 1;
        break; }
    case 'D': db_count = 0; sscanf(b + 1, "%d %ld", &db_mode, &db_n); break;
    case 'E': evon = b[1] - '0'; evlen = 0; break;
    case 'S': sndbuf = atoi(b + 1); break;
    case 'H':
        /* hold: nothing moves until the next command */
        (void)!__real_write(ctl, "A H\n", 4);
        { struct pollfd c = { ctl, POLLIN, 0 }; __real_poll(&c, 1, 60000); }
        return;
    case 'X': _exit(0);
    }
    pending = 1; rounds = 0; busy = 0;
}

#define BUSY_LIMIT 3000
int __wrap_poll(struct pollfd *fds, nfds_t n, int timeout)
{
    struct pollfd *all;
    int r;
    struct rlimit rl;
    init();
    n_poll++;
    if (ctl < 0) return __real_poll(fds, n, timeout);
    ev('P', 0, 0);
    for (;;) {
        r = __real_poll(fds, n, 0);
        if (r != 0) {
            if (r > 0) n_ev += r;
            if (pending) {
                rounds++;
                if (++busy > BUSY_LIMIT) ack(1);
            } else {
                /* do not starve the control channel while the loop is busy */
                struct pollfd c = { ctl, POLLIN, 0 };
                if (__real_poll(&c, 1, 0) > 0) { command(); }
            }
            return r;
        }
        if (timeout == 0) {
            /* the program itself says it has more to do: not quiescent */
            if (pending && ++busy > BUSY_LIMIT) ack(1);
            return 0;
        }
        if (pending) {
            if (rounds >= 2) ack(0);
            else { rounds++; return 0; }
        }
        all = malloc(sizeof *all * (n + 1));
        memcpy(all, fds, sizeof *all * n);
        all[n].fd = ctl; all[n].events = POLLIN; all[n].revents = 0;
        getrlimit(RLIMIT_NOFILE, &rl);
        if (n + 1 > rl.rlim_cur) {
            /* poll() refuses more entries than RLIMIT_NOFILE: alternate */
            int waited = 0;
            for (;;) {
                struct pollfd c = { ctl, POLLIN, 0 };
                r = __real_poll(&c, 1, 1);
                all[n].revents = r > 0 ? c.revents : 0;
                if (r) break;
                r = __real_poll(fds, n, 1);
                if (r) break;
                if ((waited += 2) >= timeout && timeout >= 0) break;
            }
        } else
            r = __real_poll(all, n + 1, timeout);
        if (r < 0) { int e = errno; free(all); errno = e; return -1; }
        if (r > 0 && all[n].revents) { free(all); command(); continue; }
        free(all);
        if (r == 0) return 0;
        /* real events: loop picks them up */
    }
}
