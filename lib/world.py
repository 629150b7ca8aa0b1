"""Runs the real server and the reference model side by side.

A scenario is a list of operations (plain JSON).  After each operation the
event loop is brought to rest (barrier), and for every connection the packets
it received must be exactly those the model says.
"""
import calendar, re, time
import icb
from icb import Server, ServerDied, ServerHang, frame
from model import Model, LOGIN_COMPLETE, LOGIN_FALSE, lc

HOSTS = {1: b"localhost", 30: b"a-very-long-host-name-indeed.with-a-very-long-domain-name.ex.test"}
for _i in range(2, 10):
    HOSTS[_i] = b"h%d.test" % _i
HOSTS[52] = b"h2.test.org"
HOSTS[icb.SIX] = b"v6.test"


def ip_of(src, dual=False):
    return b"::1" if src == icb.SIX else b"%s127.0.0.%d" % (b"::ffff:" if dual else b"", src)


def host_of(src, dns=None, dual=False):
    """a name only if it leads back to the address"""
    if dns:
        name = dns[0].get(str(src), "!")
        return name.encode() if src in next((v for k, v in dns[1].items() if k.lower() == name.lower()), []) else b"[%s]" % ip_of(src, dual)
    return HOSTS.get(src, b"[%s]" % ip_of(src, dual))


# the log: what every line looks like, and the lines that tell what users did
LOGHEAD = re.compile(rb"(\[ERR\] |\[WARN\] |\[INFO\] |\[DEBUG\] |\[VERBOSE\] |) ([A-Z][a-z]{2} \d\d \d{4} \d\d:\d\d:\d\d) ([^ ]+): ([^\x00-\x1f\x7f]*)", re.S)
LEVELS = {b"[ERR] ": 1, b"[WARN] ": 2, b"[INFO] ": 3, b"[DEBUG] ": 4, b"[VERBOSE] ": 5, b"": -1}
AUTH = b"Checking authorization of "
JUDGED = re.compile(rb"\[(CONNECT|CONNECT \(SSL\)|OPEN|COMMAND|WHO|LOGIN|LOST|DROP|KILL|IDLE_BOOT|TIMEOUT)\] |Login (denied|refused)|-?\d+: (Invalid|cannot)|"
                    rb"Checking authorization of |Log level changed")


class Divergence(Exception):
    def __init__(self, op, who, kind, detail):
        self.op, self.who, self.kind, self.detail = op, who, kind, detail
        super().__init__("%s after op %s (client %s): %s" % (kind, op, who, detail))


class World:
    def __init__(self, binary, files=None, max_users=255, brick=False, tls=False, record=None, loglevel=None, keep_dir=None,
                 t0=icb.T0, follow=False, dblog=False, tz="UTC0", dns=None, dual=False):
        self.files = {k: v for k, v in (files or {}).items()}
        self.srv = Server(binary, files=self.files, tls=tls, loglevel=loglevel, keep_dir=keep_dir, t0=t0, dblog=dblog, tz=tz, bind="" if dual else None,
                          dns=dns and "".join("%s>%s;" % x for x in dns[0].items()) + "".join("%s=%s;" % (k, ",".join(map(str, v))) for k, v in dns[1].items()))
        self.dns = dns
        self.dual = dual         # listening at all addresses, IPv4 and IPv6: the default
        self.host = self.srv.addr.encode() or b"icb.test"
        self.m = Model(self.host, t0 / 1e6, max_users, files=self.files,
                       zone=(tz[:3].encode(), icb.ZONES[tz] * 60))
        self.m.BRICK = brick
        self.cut = set()
        self.tls = tls
        self.m.log_level = loglevel or 0
        self.c = []              # clients; index is the identity used by ops
        self.fd = []             # server descriptor of each, None once gone
        self.slowq = {}
        self.op = None
        self.events = {}
        self.nops = 0
        self.npkts = 0
        self.ops = record if record is not None else []
        self.follow = follow     # take the order of events from the event loop
        self.m.follow = follow
        self.tx = {}             # follow: bytes sent to a descriptor, not yet read there
        self.rx = {}             #         read, not yet a complete packet
        self.inend = set()       #         input ended (or was no packet)
        self.secrets = []        # what must never be in the log
        self.hung = set()        #         closed on our side
        self.reads = self.turns = 0
        self.log = None          # judging the log: where reading it has got to
        self.loglvl = self.m.log_level
        self.loglines = 0
        self.lossy = False       # writing is interfered with: what is unsent when a connection is closed is lost
        if follow:
            self.srv.record()

    # -- operations
    def do(self, op):
        self.op = op
        self.ops.append(op)
        self.nops += 1
        getattr(self, "op_" + op[0])(*op[1:])
        self.sync()

    def places(self):
        """for clients: descriptors up to the one of the Server user"""
        return self.m.NS - (6 if self.tls else 5)

    def live(self):
        return [i for i, f in enumerate(self.fd) if f is not None]

    def user(self, i):
        return self.m.u.get(self.fd[i]) if self.fd[i] is not None else None

    def op_conn(self, src=1, tls=False):
        if src == icb.SIX and not (self.dual and icb.have_six()):
            src = 20
        cl = self.srv.connect(src, tls)
        self.srv.barrier()
        for _ in range(100):
            if cl.fd is not None:
                break
            time.sleep(0.01)
            self.srv.barrier()
        fd = cl.fd
        if fd is None:
            raise Divergence(self.op, len(self.c), "not-accepted", "the server did not accept a connection")
        self.c.append(cl)
        if fd >= self.m.NS:
            # no place for it: closed at once
            end = time.time() + 4
            while not cl.eof and time.time() < end:
                cl.take()
                time.sleep(.005)
            if not cl.eof or cl.take() or cl.buf:
                raise Divergence(self.op, len(self.c) - 1, "not-refused", "a connection for which there is no place was not just closed")
            self.fd.append(None)
            self.m.log(3, b"[LOST] %d: >= %d (MAX_REAL_USERS)" % (fd, self.m.NS))
            self.m.events.append("refused for lack of places")
            cl.close()
            return
        for i, f in enumerate(self.fd):
            if f == fd:
                self.fd[i] = None
        self.fd.append(fd)
        self.m.closed.discard(fd)
        if self.dns:
            said = self.dns[0].get(str(src), "!")
            self.m.ev("no-name" if said == "!" else "name-cut" if len(said) > 64 else "name-false" if host_of(src, self.dns, self.dual)[:1] == b"[" else
                      "name-shared" if len(self.dns[1].get(said, [])) > 1 else "name-true")
        if self.dual:
            self.m.ev("from-ipv6" if src == icb.SIX else "from-ipv4-mapped")
        self.m.connect(fd, host_of(src, self.dns, self.dual), tls, self.m.VERSION, ip=ip_of(src, self.dual))

    def op_raw(self, i, hexdata):
        """one complete packet, possibly odd: the payload after the length byte"""
        data = bytes.fromhex(hexdata)
        assert 1 <= len(data) <= 255
        self.c[i].send_raw(bytes([len(data)]) + data)
        self.feed(i, data)

    def op_pkt(self, i, t, *fields):
        body = t.encode("latin1") + b"\1".join(f.encode("latin1") for f in fields)
        body = body[:254] + b"\0"
        self.c[i].send_raw(bytes([len(body)]) + body)
        self.feed(i, body)

    def op_cmd(self, i, cmd, arg=""):
        self.op_pkt(i, "h", cmd, arg)

    def op_login(self, i, loginid, nick, group, pw="", kind="login"):
        self.op_pkt(i, "a", loginid, nick, group, kind, pw)

    def op_zero(self, i):
        """an empty packet: not a packet at all, the connection is ended"""
        self.c[i].send_raw(b"\0")
        if self.follow:
            self.tx[self.fd[i]] = self.tx.get(self.fd[i], b"") + b"\0"
        else:
            self.m.lost(self.fd[i])

    def op_bytes(self, i, hexdata):
        """any piece of a client's stream (follow mode only)"""
        assert self.follow
        data = bytes.fromhex(hexdata)
        self.c[i].send_raw(data)
        fd = self.fd[i]
        self.tx[fd] = self.tx.get(fd, b"") + data

    def op_burst(self, items):
        """several things at once, all before the server gets to run"""
        assert self.follow
        self.srv.hold()
        for x in items:
            if self.fd[x[1]] is not None and not self.c[x[1]].closed:
                getattr(self, "op_" + x[0])(*x[1:])

    def op_close(self, i, rst=False):
        self.c[i].close(rst)
        self.gone(i)

    def op_half(self, i):
        self.c[i].shutdown()
        self.gone(i)

    def gone(self, i):
        fd = self.fd[i]
        if fd is not None:
            if self.follow:
                self.hung.add(fd)
                return
            self.slowq.pop(fd, None)
            self.m.lost(fd)
        # the descriptor mapping goes once the model has accounted for it

    def op_adv(self, seconds):
        us = self.srv.now + int(seconds * 1000000)
        self.m.now_us = us
        self.advancing = True
        try:
            self.srv.set_time(us)
            self.srv.barrier()
        except ServerDied:
            # (at its shutdown time it should)
            if self.srv.proc.poll() != 0:
                raise
            self.settle_model()
            if not self.m.exited:
                raise

    def feed(self, i, data):
        fd = self.fd[i]
        if self.follow:
            self.tx[fd] = self.tx.get(fd, b"") + bytes([len(data)]) + data
            return
        u = self.m.u.get(fd)
        if u is None:
            return
        if u.slow:
            self.slowq.setdefault(fd, []).append(data)
        else:
            self.m.packet(fd, data)

    # -- comparing
    def settle_model(self):
        def mark():
            return (sum(map(len, self.m.out.values())), len(self.m.u), len(self.m.closed), len(self.m.events),
                    sum(map(len, self.slowq.values())))
        for _ in range(1000):
            before = mark()
            for fd, q in list(self.slowq.items()):
                # (one packet per turn of the loop)
                if fd not in self.m.u:
                    del self.slowq[fd]
                elif q and self.m.now - self.m.u[fd].t_recv >= 1 and not self.m.u[fd].kill:
                    self.m.packet(fd, q.pop(0))
            self.m.idle()
            if self.m.exited or mark() == before:
                break

    def follow_trace(self):
        """makes the model do what the event loop did, in that order"""
        tr, self.srv.trace = self.srv.trace, []
        for e in tr:
            k, fd = e[0], e[1] if len(e) > 1 else None
            if k == "P":
                self.turns += 1
                self.m.idle()
                if self.m.exited:
                    return
            elif k == "R":
                self.reads += 1
                data, self.tx[fd] = self.tx.get(fd, b"")[:e[2]], self.tx.get(fd, b"")[e[2]:]
                if len(data) != e[2]:
                    raise Divergence(self.op, fd, "read", "the server read %d bytes of descriptor %d, %d were sent" % (e[2], fd, len(data)))
                buf = self.rx.get(fd, b"") + data
                while buf:
                    if buf[0] == 0:
                        self.inend.add(fd)
                        buf = b""
                        if fd in self.m.u:
                            self.m.u[fd].dropped = True
                    if not buf or len(buf) < buf[0] + 1:
                        break
                    pkt, buf = buf[1:buf[0] + 1], buf[buf[0] + 1:]
                    if fd in self.m.u and fd not in self.inend:
                        self.m.packet(fd, pkt)
                self.rx[fd] = buf
            elif k == "E":
                self.inend.add(fd)
                if fd in self.m.u:
                    self.m.u[fd].dropped = True
            elif k == "C":
                u = self.m.u.get(fd)
                if u is not None and fd < self.m.NS:
                    if not (u.dying or u.dropped or fd in self.inend or fd in self.hung):
                        raise Divergence(self.op, fd, "unexpected-close", "the server closed a connection for no reason")
                    self.m.lost(fd)
                if self.tx.get(fd):
                    # (closed with input unread: the connection is reset, and what was under way to the client may be lost)
                    self.cut.add(fd)
                for d in (self.tx, self.rx):
                    d.pop(fd, None)
                self.inend.discard(fd)
                self.hung.discard(fd)
        for fd in self.tx:
            u = self.m.u.get(fd)
            if self.tx[fd] and u is not None and not u.dropped and fd not in self.hung:
                raise Divergence(self.op, fd, "not-read", "%d bytes sent on descriptor %d are still unread" % (len(self.tx[fd]), fd))
        for fd in list(self.hung) + list(self.inend) + [u.fd for u in self.m.real() if u.dropped]:
            if fd in self.m.u:
                raise Divergence(self.op, fd, "not-closed", "descriptor %d should have been closed" % fd)

    def sync(self):
        if self.follow:
            self.srv.barrier()
            self.follow_trace()
        else:
            self.settle_model()
        if self.m.exited:
            return self.check_exit()
        if not self.follow:
            self.srv.barrier()
        out, self.m.out = self.m.out, {}
        for e in self.m.events:
            self.events[e] = self.events.get(e, 0) + 1
        self.m.events = []
        # everything was sent before the barrier was answered; allow for a
        # slow loopback all the same before calling a packet missing
        got = {}
        deadline = None
        while True:
            ok = True
            for i, cl in enumerate(self.c):
                fd = self.fd[i]
                if fd is None:
                    continue
                g = got.setdefault(i, [])
                g += cl.take()
                want = out.get(fd, [])
                if not cl.closed and ((len(g) < len(want) and not ((self.lossy or fd in self.cut) and fd in self.m.closed)) or (fd in self.m.closed and not cl.eof)):
                    ok = False
            if ok:
                break
            if deadline is None:
                deadline = time.time() + 4
            elif time.time() > deadline:
                break
            time.sleep(0.02)
            self.srv.barrier()
        for i, cl in enumerate(self.c):
            fd = self.fd[i]
            if fd is None:
                continue
            want = out.get(fd, [])
            self.npkts += len(got[i])
            if not cl.closed:
                if cl.bad:
                    raise Divergence(self.op, i, "framing", cl.bad)
                g = [p[:-1] if p.endswith(b"\0") else p for p in got[i]]
                for k in range(max(len(g), len(want))):
                    a = want[k] if k < len(want) else None
                    b = g[k] if k < len(g) else None
                    if b is None and (self.lossy or fd in self.cut) and fd in self.m.closed:
                        break
                    if a != b:
                        raise Divergence(self.op, i, "missing-packet" if b is None else "unexpected-packet" if a is None else
                                         "wrong-packet", "expected %r, got %r (packet %d)" % (a, b, k))
                    if got[i][k] != a + b"\0":
                        raise Divergence(self.op, i, "framing", "packet %r not terminated as usual" % (got[i][k],))
                if cl.eof and fd not in self.m.closed:
                    raise Divergence(self.op, i, "unexpected-close", "the server closed the connection")
                if fd in self.m.closed and not cl.eof:
                    raise Divergence(self.op, i, "not-closed", "the server left the connection open")
                if cl.buf and not ((self.lossy or fd in self.cut) and fd in self.m.closed):
                    raise Divergence(self.op, i, "framing", "incomplete packet %r" % cl.buf)
            if fd in self.m.closed:
                self.fd[i] = None
                cl.close()
        self.m.closed.clear()
        self.cut.clear()
        if self.log is not None:
            self.check_log()
        self.m.loglines = []
        self.m.asked.clear()

    def check_log(self):
        """the log says what happened in this step, one line for each, and nothing else of the kind"""
        top, self.loglvl, self.m.log_top = max(self.loglvl, self.m.log_level, self.m.log_top), self.m.log_level, 0
        with open(self.srv.dir + "/icbd.log", "rb") as f:
            f.seek(self.log)
            new = f.read()
        self.log += len(new)
        if new and not new.endswith(b"\n"):
            raise Divergence(self.op, None, "log-line", "an incomplete line %r" % new[-200:])
        want, auth, got = [], set(), []
        for lvl, t, text in self.m.loglines:
            text = bytes(63 if c < 32 or c == 127 else c for c in text.rstrip(b"\n"))   # (newlines at its end are not part of it)
            if text.startswith(AUTH):
                auth.add((lvl, t, text))
            else:
                want.append((lvl, t, text))
        for line in new.split(b"\n")[:-1]:
            self.loglines += 1
            h = LOGHEAD.fullmatch(line)
            if h is None:
                raise Divergence(self.op, None, "log-line", "no line of the log: %r" % line)
            lvl = LEVELS[h[1]]
            if lvl > top:
                raise Divergence(self.op, None, "log-level", "logged at level %d: %r" % (top, line))
            t = calendar.timegm(time.strptime(h[2].decode(), "%b %d %Y %H:%M:%S")) - self.m.zone[1]
            if not t - 2 <= self.m.now <= t + 2 or h[3] != self.host:
                raise Divergence(self.op, None, "log-line", "wrong time or host: %r (time %d, host %s)" % (line, self.m.now, self.host))
            for s in self.secrets:
                if s in line and lvl < 4 and not re.match(rb"-?\d+: (Invalid|cannot)", h[4]):
                    raise Divergence(self.op, None, "log-password", "a password in the log: %r" % line)
            e = (lvl, t, h[4])
            if not JUDGED.match(h[4]):
                continue
            if h[4].startswith(AUTH):
                who, _, yes = h[4][len(AUTH):].rpartition(b": ")
                if e in auth:
                    auth.discard(e)
                elif lvl != 3 or not (who in self.m.asked or any(u.nick == who for u in self.m.u.values())) or yes == b"yes" and lc(who) != b"admin":
                    raise Divergence(self.op, None, "log-line", "nobody did that: %r" % line)
                continue
            got.append(e)
        a, b = sorted(want + list(auth)), sorted(got)
        if a != b:
            raise Divergence(self.op, None, "log", "lines missing from the log: %r; lines too many: %r" % ([x for x in a if x not in b] or [x for x in set(a) if a.count(x) > b.count(x)],
                             [x for x in b if x not in a] or [x for x in set(b) if b.count(x) > a.count(x)]))

    def check_exit(self):
        t = time.time() + 20
        while self.srv.alive() and time.time() < t:
            try:
                self.srv.barrier(timeout=5)
            except (ServerDied, ServerHang):
                pass
            time.sleep(0.02)
        if self.srv.alive():
            raise Divergence(self.op, None, "no-exit", "the server should have shut down")
        if self.srv.proc.returncode != 0:
            raise ServerDied("exit status %s at shutdown" % self.srv.proc.returncode)
        for i in range(len(self.fd)):
            self.fd[i] = None

    def stop(self):
        self.srv.stop()
