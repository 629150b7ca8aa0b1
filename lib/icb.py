"""Driver for an instrumented icbd: process control, virtual clock, barrier, clients."""
import fcntl, os, shutil, signal, socket, ssl, subprocess, tempfile, time
from pathlib import Path

T0 = 1_600_000_000_000_000  # virtual start, microseconds
ZONES = {"UTC0": 0, "EST5": -300, "IST-5:30": 330, "CHA-12:45": 765, "HST10": -600, "LIT-14": 840}  # minutes east
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:handle_abort=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:allocator_may_return_null=1:symbolize=1:log_path=%s/san",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=86:print_stacktrace=1:log_path=%s/san",
    "MSAN_OPTIONS": "exitcode=86:log_path=%s/san",
    "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or "",
}


class ServerDied(Exception):
    pass


class ServerHang(Exception):
    pass


class Spin(Exception):
    pass


_addr_ctr = 0


def _listen_addr():
    """A loopback address private to this process, so parallel servers never share a port."""
    pid = os.getpid()
    return "127.%d.%d.%d" % (1 + (pid >> 16) % 200, (pid >> 8) & 255, max(1, pid & 255) if pid & 255 < 255 else 254)


_pem = None


def test_pem(cache_dir):
    global _pem
    if _pem:
        return _pem
    p = Path(cache_dir) / "icbd.pem"
    if not p.exists():
        p.parent.mkdir(parents=True, exist_ok=True)
        t = tempfile.mkdtemp()
        subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", t + "/k", "-out", t + "/c",
                        "-days", "3650", "-subj", "/CN=localhost"], check=True, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        data = open(t + "/k", "rb").read() + open(t + "/c", "rb").read()
        tmp = p.with_suffix(".%d" % os.getpid())
        tmp.write_bytes(data)
        os.replace(tmp, p)
        shutil.rmtree(t)
    _pem = p.read_bytes()
    return _pem


SIX = 61             # as where a client connects from: ::1 (only when the server listens everywhere)



def have_six():
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_STREAM) as s:
            s.bind(("::1", 0))
        return True
    except OSError:
        return False


class Server:
    def __init__(self, binary, files=None, tls=False, args=(), t0=T0, keep_dir=None, loglevel=None, bind=None,
                 dblog=False, tz="UTC0", dns=None):
        global _addr_ctr
        self.dir = keep_dir or tempfile.mkdtemp(prefix="icbv.")
        self.own_dir = keep_dir is None
        self.now = t0
        for k, v in (files or {}).items():
            Path(self.dir, k).write_bytes(v)
        self.addr = bind if bind is not None else _listen_addr()
        self.tls = tls
        self.clients = []
        self.conns = {}      # (last octet, port) of a peer -> the server's descriptor for it
        self.busy_acks = 0
        self.trace = []      # events since they were last taken, if being recorded
        self.stats = None
        self.barriers = 0
        last = None
        for attempt in range(20):
            _addr_ctr += 1
            self.port = 10000 + (os.getpid() * 7 + _addr_ctr * 2) % 22000
            self.tlsport = self.port + 1
            a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
            cfd = fcntl.fcntl(b.fileno(), fcntl.F_DUPFD, 900)
            b.close()
            self.ctl = a
            a.settimeout(30)
            env = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C", "TZ": tz, "VERIF_CTL": str(cfd), "VERIF_T0": str(t0)}
            for k, v in SAN_ENV.items():
                env[k] = v.replace("%s", self.dir)
            if dns:
                env["VERIF_DNS"] = dns
            fds = [cfd]
            if dblog:
                f = os.open(os.path.join(self.dir, "dblog"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                dfd = fcntl.fcntl(f, fcntl.F_DUPFD, 901)
                os.close(f)
                fds.append(dfd)
                env["VERIF_DBLOG"] = str(dfd)
            cmd = [str(binary), "-f", "-p", str(self.port)]
            if self.addr:
                cmd += ["-b", self.addr]
            if loglevel is not None:
                cmd += ["-l", str(loglevel)]
            if tls:
                cmd.append("-s%d" % self.tlsport)
            cmd += list(args)
            self.err = open(os.path.join(self.dir, "stderr"), "wb")
            self.proc = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err,
                                         pass_fds=fds, start_new_session=True)
            for f in fds:
                os.close(f)
            try:
                self.barrier()
                return
            except (ServerDied, ServerHang) as e:
                last = e
                rep = self.report()
                self.kill()
                if "Sanitizer" in rep or "runtime error" in rep:
                    self.cleanup()
                    raise ServerDied("at startup: " + rep[:3000])
        self.cleanup()
        raise ServerDied("server does not start: %s" % last)

    # --- control channel
    def _cmd(self, msg, timeout=30):
        self.barriers += 1
        try:
            self.ctl.settimeout(timeout)
            self.ctl.send(msg)
            r = self.ctl.recv(200000)
        except socket.timeout:
            raise ServerHang("event loop did not answer the barrier within %ds" % timeout)
        except OSError:
            r = b""
        if not r:
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                pass
            raise ServerDied("server process ended (status %s)" % self.proc.poll())
        if r.startswith(b"A H"):
            return None
        r, _, tr = r.partition(b"|")
        tr = tr.strip()
        if tr:
            if tr[:1] == b"!":
                raise ServerHang("too many events between two barriers")
            for e in tr.split(b";")[:-1]:
                self.trace.append((chr(e[0]),) + tuple(map(int, e[1:].split(b","))) if len(e) > 1 else ("P",))
        v = r.split()
        self.stats = dict(zip(("busy", "polls", "events", "read", "written", "accepts", "closes", "injected", "fds"),
                              map(int, v[1:10])))
        self.stats["dbcalls"] = int(v[11])
        self.stats["heap"] = int(v[12])
        for tok in v[13:]:
            fd, _, peer = tok.partition(b":")
            host, _, port = peer.partition(b".")
            self.conns[int(host), int(port)] = int(fd)
        if self.stats["busy"]:
            self.busy_acks += 1
        return self.stats

    def barrier(self, timeout=30):
        return self._cmd(b"B", timeout)

    def record(self, on=True):
        self._cmd(b"E%d" % on)
        self.trace = []

    def hold(self):
        """stop the event loop until the next command"""
        self._cmd(b"H")

    def set_time(self, us):
        self.now = us
        return self._cmd(b"T%d" % us)

    def advance(self, seconds):
        return self.set_time(self.now + int(seconds * 1_000_000))

    def dbfault(self, mode=0, n=0):
        """1: die before the n-th database call, 2: like 1 but in the middle of a write,
        3: fail the n-th call, 4: short writes"""
        return self._cmd(b"D%d %d" % (mode, n))

    def sndbuf(self, n):
        """send buffer of connections accepted from now on"""
        return self._cmd(b"S%d" % n)

    def faults(self, rcap=0, wcap=0, ragain=0, wagain=0, seed=1):
        return self._cmd(b"F%d %d %d %d %d" % (rcap, wcap, ragain, wagain, seed))

    # --- lifecycle
    def alive(self):
        return self.proc.poll() is None

    def report(self):
        out = ""
        for p in sorted(Path(self.dir).glob("san*")):
            out += p.read_text(errors="replace")
        try:
            out += Path(self.dir, "stderr").read_text(errors="replace")
        except OSError:
            pass
        return out

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.ctl.close()
        self.err.close()

    def cleanup(self):
        if self.own_dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    def stop(self):
        for c in self.clients:
            c.close()
        self.kill()
        self.cleanup()

    def connect(self, src=1, tls=False, rcvbuf=None):
        c = Client(self, src, tls, rcvbuf)
        self.clients.append(c)
        return c


class Client:
    """A raw ICB connection; keeps everything it received."""

    def __init__(self, server, src=1, tls=False, rcvbuf=None):
        self.server = server
        six = src == SIX
        s = socket.socket(socket.AF_INET6 if six else socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if src and not six:
            s.bind(("127.0.0.%d" % src, 0))
        s.settimeout(20)
        s.connect(("::1" if six else server.addr or "127.0.0.1", server.tlsport if tls else server.port))
        if tls:
            ctx = ssl.create_default_context()
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
            s = ctx.wrap_socket(s)
        s.setblocking(False)
        self.sock, self.tls = s, tls
        a = s.getsockname()
        self.src, self.port = SIX if six else int(a[0].split(".")[3]), a[1]
        self.buf = b""
        self.raw = b""       # every byte received
        self.eof = False
        self.reset = False
        self.closed = False
        self.frames = []     # parsed, not yet consumed
        self.bad = None      # framing violation

    @property
    def fd(self):
        """the server's descriptor number for this connection (after a barrier)"""
        return self.server.conns.get((self.src, self.port))

    def send_raw(self, data, timeout=20):
        if self.closed:
            return
        self.sock.settimeout(timeout)
        try:
            self.sock.sendall(data)
        except (BrokenPipeError, ConnectionResetError, ssl.SSLError, OSError) as e:
            if isinstance(e, socket.timeout):
                raise
            self.reset = True
        finally:
            try:
                self.sock.setblocking(False)
            except OSError:
                pass

    def send(self, ptype, *fields, nul=True):
        self.send_raw(frame(ptype, *fields, nul=nul))

    def pump(self):
        while not (self.eof or self.closed):
            try:
                d = self.sock.recv(65536)
            except (BlockingIOError, ssl.SSLWantReadError, ssl.SSLWantWriteError):
                break
            except (ConnectionResetError, ssl.SSLError, OSError):
                self.reset = self.eof = True
                break
            if not d:
                self.eof = True
                break
            self.raw += d
            self.buf += d
        while self.buf:
            n = self.buf[0]
            if n == 0:
                self.bad = "zero length byte"
                break
            if len(self.buf) < n + 1:
                break
            self.frames.append(self.buf[1:n + 1])
            self.buf = self.buf[n + 1:]

    def take(self):
        self.pump()
        f, self.frames = self.frames, []
        return f

    def shutdown(self, how=socket.SHUT_WR):
        try:
            socket.socket.shutdown(self.sock, how)     # (of the connection, not of TLS)
        except OSError:
            pass

    def close(self, rst=False):
        if self.closed:
            return
        self.closed = True
        if rst == "tls":
            try:
                self.sock.setblocking(False)
                self.sock.unwrap()
            except (OSError, ValueError):
                pass
        elif rst:
            import struct
            try:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
        try:
            self.sock.close()
        except OSError:
            pass


def b(x):
    return x if isinstance(x, bytes) else str(x).encode("utf-8", "surrogateescape")


def frame(ptype, *fields, nul=True):
    body = b(ptype) + b"\x01".join(b(f) for f in fields) + (b"\0" if nul else b"")
    assert len(body) <= 255, len(body)
    return bytes([len(body)]) + body
