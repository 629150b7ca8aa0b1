"""A small client and server driver for the demonstrations.  Run in the repository after it was built."""
import atexit, os, select, shutil, socket, ssl, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
CWD = os.getcwd()
SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <netdb.h>
#include <arpa/inet.h>
/* shared page: 0 clock offset (s), 1 most bytes per write, 2 most per read, 3 fail the n-th database call, 4 die there, 5 calls seen,
   6 the time, standing still, 7 no file can be synced */
static volatile long *pg;
__attribute__((constructor)) static void init(void) {
    const char *f = getenv("DEMO_PAGE");
    int fd = f ? open(f, O_RDWR) : -1;
    if (fd >= 0) { pg = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (pg == MAP_FAILED) pg = 0; }
}
#define REAL(n) static __typeof__(n) *real; if (!real) real = dlsym(RTLD_NEXT, #n)
time_t time(time_t *t) { REAL(time); time_t v = real(NULL) + (pg ? pg[0] : 0); if (pg && pg[6]) v = pg[6]; if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *tz) { static int (*real)(struct timeval *, void *); if (!real) real = dlsym(RTLD_NEXT, "gettimeofday");
    int r = real(tv, tz); if (pg) tv->tv_sec += pg[0]; if (pg && pg[6]) tv->tv_sec = pg[6]; return r; }
static int sock(int fd) { struct stat s; return fstat(fd, &s) == 0 && S_ISSOCK(s.st_mode); }
static int hit(void) { if (!pg) return 0; long n = ++pg[5]; if (pg[4] && n == pg[4]) _exit(99); return pg[3] && n == pg[3]; }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (pg && sock(fd)) { if (pg[1] > 0 && n > (size_t)pg[1]) n = pg[1]; }
    else if (fd > 2 && hit()) { errno = ENOSPC; return -1; } return real(fd, b, n); }
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (pg && pg[2] > 0 && sock(fd) && n > (size_t)pg[2]) n = pg[2]; return real(fd, b, n); }
int fsync(int fd) { REAL(fsync); if (hit() || (pg && pg[7])) { errno = EIO; return -1; } return real(fd); }
/* DEMO_DNS, if there: "22>name;" what 127.0.0.22 is called, "name=2,22;" the addresses of a name */
static const char *dns(const char *k, char c) { const char *p = getenv("DEMO_DNS"); size_t l = strlen(k);
    for (; p && *p; p = strchr(p, ';') + 1) if (!strncmp(p, k, l) && p[l] == c) return p + l + 1; return 0; }
int getnameinfo(const struct sockaddr *sa, socklen_t sl, char *h, socklen_t hl, char *s, socklen_t svl, int fl) { REAL(getnameinfo);
    char k[16]; const char *p;
    if (!getenv("DEMO_DNS") || (fl & NI_NUMERICHOST) || sa->sa_family != AF_INET || !h) return real(sa, sl, h, hl, s, svl, fl);
    snprintf(k, sizeof k, "%d", ntohl(((struct sockaddr_in *)sa)->sin_addr.s_addr) & 255);
    if (!(p = dns(k, '>'))) return EAI_NONAME;
    snprintf(h, hl, "%.*s", (int)(strchr(p, ';') - p), p); return 0; }
int getaddrinfo(const char *n, const char *svc, const struct addrinfo *hi, struct addrinfo **res) { REAL(getaddrinfo);
    const char *p = n && getenv("DEMO_DNS") ? dns(n, '=') : 0; char k[32]; struct addrinfo **t = res;
    if (!p) return real(n, svc, hi, res);
    for (*res = 0; *p >= '0' && *p <= '9'; p += *p == ',') { snprintf(k, sizeof k, "127.0.0.%d", (int)strtol(p, (char **)&p, 10));
        if (real(k, svc, hi, t)) continue; while (*t) t = &(*t)->ai_next; }
    return *res ? 0 : EAI_NONAME; }
int rename(const char *a, const char *b) { REAL(rename); if (hit()) { errno = EIO; return -1; } return real(a, b); }
'''


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


def check(ok, msg):
    if not ok:
        fail(msg)


def frame(t, *f):
    body = t.encode("latin1") + b"\1".join(x if isinstance(x, bytes) else x.encode("latin1") for x in f)
    body = body[:254] + b"\0"
    return bytes([len(body)]) + body


def asan(*opts):
    """the server, built anew with the address sanitizer"""
    d = tempfile.mkdtemp(prefix="icbdemo.")
    atexit.register(shutil.rmtree, d, True)
    f = "-DCMAKE_C_FLAGS=-g -O1 -w -fsanitize=address -fno-omit-frame-pointer"
    subprocess.run(["cmake", "-S", CWD, "-B", d + "/b", f, "-DCMAKE_EXE_LINKER_FLAGS=-fsanitize=address",
                    "-DADMIN_PWD=ci_test_pwd", "-DICBD_ENABLE_SSL=ON", "-DBUILD_TESTING=OFF", *opts], check=True, stdout=subprocess.DEVNULL)
    subprocess.run(["cmake", "--build", d + "/b", "-j4", "--target", "icbd"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return d + "/b/server/icbd"


class Server:
    def __init__(self, files=None, shim=False, tls=False, dir=None, binary=None, nofile=None, args=(), fork=False, dns=None):
        self.dns = dns
        self.args, self.fork = list(args), fork
        self.dir = dir or tempfile.mkdtemp(prefix="icbdemo.")
        if dir is None:
            atexit.register(shutil.rmtree, self.dir, True)
        for k, v in (files or {}).items():
            open(os.path.join(self.dir, k), "wb").write(v)
        self.bin = binary or os.path.join(CWD, "_build", "server", "icbd")
        self.shim, self.tls = shim, tls
        if tls:
            subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", self.dir + "/k", "-out", self.dir + "/c", "-days", "30",
                            "-subj", "/CN=localhost"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            open(self.dir + "/icbd.pem", "wb").write(open(self.dir + "/k", "rb").read() + open(self.dir + "/c", "rb").read())
        self.start()

    def start(self):
        env = dict(os.environ, LC_ALL="C", TZ="UTC", ASAN_OPTIONS="detect_leaks=0")
        if self.shim:
            so = self.dir + "/demo_shim.so"
            if not os.path.exists(so):
                open(self.dir + "/demo_shim.c", "w").write(SHIM)
                subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-O1", "-o", so, self.dir + "/demo_shim.c", "-ldl"], check=True)
                open(self.dir + "/page", "wb").write(bytes(4096))
            import mmap
            self.pgf = open(self.dir + "/page", "r+b")
            self.pg = mmap.mmap(self.pgf.fileno(), 4096)
            if self.dns:
                env["DEMO_DNS"] = self.dns
            env.update(LD_PRELOAD=so, DEMO_PAGE=self.dir + "/page")
        for n in range(30):
            self.port = 20000 + (os.getpid() * 13 + n * 2 + int(time.time() * 10)) % 12000
            cmd = [self.bin] + ([] if self.fork else ["-f"]) + self.args + ["-p", str(self.port), "-b", "127.0.0.1"] + (["-s%d" % (self.port + 1)] if self.tls else [])
            self.p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                      stderr=open(self.dir + "/err", "wb"))
            atexit.register(self.kill)
            t = time.time() + 10
            while time.time() < t and (self.fork or self.p.poll() is None):
                try:
                    s = socket.create_connection(("127.0.0.1", self.port), 1)
                    s.recv(10)
                    s.close()
                    time.sleep(.05)
                    return
                except OSError:
                    time.sleep(.05)
            self.kill()
        print("cannot start the server", open(self.dir + "/err").read())
        sys.exit(2)

    def kill(self):
        if self.fork:
            for d in os.listdir("/proc"):
                try:
                    if d.isdigit() and os.readlink("/proc/" + d + "/cwd") == self.dir and os.readlink("/proc/" + d + "/exe") == os.path.realpath(self.bin):
                        os.kill(int(d), 9)
                except OSError:
                    pass
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def log(self):
        try:
            return open(self.dir + "/" + "icbd.log", "rb").read()
        except OSError:
            return b""

    def alive(self):
        return self.p.poll() is None

    def set(self, k, v):
        self.pg[8 * k:8 * k + 8] = struct.pack("l", v)

    def get(self, k):
        return struct.unpack("l", self.pg[8 * k:8 * k + 8])[0]

    def clock(self, off):
        """moves the server's clock, and lets it notice"""
        self.set(0, off)
        time.sleep(2.6)

    def freeze(self, t):
        """the server's clock stands still at t"""
        self.set(6, t)
        time.sleep(2.6)

    def conn(self, tls=False, rcvbuf=None, src=None):
        return Client(self, tls, rcvbuf, src)

    def user(self, nick, group="1", pw="", loginid=None, src=None, tls=False):
        c = self.conn(src=src, tls=tls)
        c.get()
        c.send("a", loginid or nick, nick, group, "login", pw)
        c.first = c.get()
        return c


class Client:
    def __init__(self, srv, tls=False, rcvbuf=None, src=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if src:
            self.s.bind((src, 0))
        self.s.settimeout(5)
        self.s.connect(("127.0.0.1", srv.port + (1 if tls else 0)))
        if tls:
            x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            x.check_hostname = False
            x.verify_mode = ssl.CERT_NONE
            self.s = x.wrap_socket(self.s)
        else:
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.eof = False

    def raw(self, d):
        try:
            self.s.sendall(d)
        except OSError:
            self.eof = True

    def send(self, t, *f):
        self.raw(frame(t, *f))

    def cmd(self, c, arg="", quiet=.25):
        """a command, and what comes back"""
        self.send("h", c, arg)
        return self.get(quiet)

    def get(self, quiet=.25, most=8):
        """the packets received until nothing more comes for a while"""
        end = time.time() + most
        self.s.settimeout(quiet)
        while time.time() < end and not self.eof:
            try:
                d = self.s.recv(65536)
            except (socket.timeout, ssl.SSLWantReadError):
                break
            except OSError:
                d = b""
            if not d:
                self.eof = True
                break
            self.buf += d
        self.s.settimeout(5)
        out = []
        while self.buf and len(self.buf) > self.buf[0]:
            n = self.buf[0]
            out.append(self.buf[1:n + 1].rstrip(b"\0"))
            self.buf = self.buf[n + 1:]
            if n == 0:
                break
        return out

    def close(self, rst=False):
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()
        time.sleep(.1)


def has(pkts, text):
    text = text if isinstance(text, bytes) else text.encode("latin1")
    return any(text in p for p in pkts)
