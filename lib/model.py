"""Executable reference model of the ICB server.

Every packet a client sends is applied to this model, which says exactly
which packets every connected client must receive because of it.  The
monitors compare that with what the real server sent.  The model is written
at the level of what users can observe; it shares no code with /repo.

Byte strings everywhere.  A user slot is identified by the descriptor number
of the connection, because the server's tie breaks (who becomes moderator,
listing order) go by slot order; the shim reports the descriptor at accept.
"""
import time as _time

MAX_GROUPLEN = 8
MAX_IDLEN = 12
MAX_NICKLEN = 12
MAX_NODELEN = 64
MAX_PASSWDLEN = 12
MAX_TOPICLEN = 32
MAX_INVITES = 50
MAX_HUSHED = 32
MAX_NOTIFIES = 40
MAX_WRITES = 20
MAX_FIELDS = 20
MAX_INPUTSTR = 250 - MAX_NICKLEN - MAX_NICKLEN - 6
MAX_AWAY_LEN = MAX_INPUTSTR - 17
AWAY_NOSEND_TIME = 10
MAX_GROUPS = 300
DEF_IDLE_BOOT = 3600
DEF_IDLE_MOD = 3600
MOD_TIMEOUT = 300
MAX_IDLE_MOD = 14400
MAX_MOD_IDLE = 600
IDLE_GROUP = b"~IDLE~"
BOOT_GROUP = b"~RESEDA~"
IDLE_BOOT_MSG = b"A swarm of bats swoops down and carries %s away."
IDLE_MOD_MSG = b"A piano suddenly falls on %s, dislodging moderatorship of %s."
MAX_PKT_DATA = 254

VISIBLE, SECRET, SUPERSECRET = 1, 2, 3
PUBLIC, MODERATED, RESTRICTED, CONTROLLED = 1, 2, 3, 4
QUIET, NORMAL, LOUD = 1, 2, 3

LOGIN_FALSE, LOGIN_PENDING, LOGIN_COMPLETE = 0, 1, 2

# ---------------------------------------------------------------- text

OKGROUP = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-.!'$+,/?_~")
OKNICK = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-.!'$+,/?_@")


def cstr(b):
    i = b.find(b"\0")
    return b if i < 0 else b[:i]


def _filter(s, ok):
    return bytes(c if c in ok else (0x5F if c == 0x20 else 0x3F) for c in s)


def filternick(s):
    return _filter(s, OKNICK)


def filtergroup(s):
    return _filter(s, OKGROUP)


def _second(lead):
    """(number of continuation bytes, allowed range of the first of them)"""
    if 0xC2 <= lead <= 0xDF:
        return 1, 0x80, 0xBF
    if lead == 0xE0:
        return 2, 0xA0, 0xBF
    if 0xE1 <= lead <= 0xEC or lead in (0xEE, 0xEF):
        return 2, 0x80, 0xBF
    if lead == 0xED:
        return 2, 0x80, 0x9F
    if lead == 0xF0:
        return 3, 0x90, 0xBF
    if 0xF1 <= lead <= 0xF3:
        return 3, 0x80, 0xBF
    if lead == 0xF4:
        return 3, 0x80, 0x8F
    return None


def filtertext(src, n):
    """What survives of the first n bytes of src: well-formed UTF-8 minus
    control characters; every maximal ill-formed piece becomes one '?'; a
    sequence cut off by the end disappears."""
    out = bytearray()
    i = 0
    src = cstr(src)[:n]
    L = len(src)
    while i < L:
        c = src[i]
        if c < 0x80:
            if c >= 0x20:
                out.append(c)
            i += 1
            continue
        s = _second(c)
        if s is None:
            out.append(0x3F)
            i += 1
            continue
        cnt, lo, hi = s
        j = i + 1
        bad = False
        for k in range(cnt):
            if j >= L:
                return bytes(out)       # incomplete at the end: dropped
            if not lo <= src[j] <= hi:
                bad = True
                break
            lo, hi = 0x80, 0xBF
            j += 1
        if bad:
            out.append(0x3F)
            i = j
        else:
            out += src[i:j]
            i = j
    return bytes(out)


def lc(s):
    return s.lower()


def uc(s):
    return s.upper()


def ieq(a, b):
    return a.lower() == b.lower()


def getword(s):
    i = 0
    while i < len(s) and s[i] not in b" \t" and i < 63:
        i += 1
    return s[:i]


def get_tail(s):
    i = 0
    while i < len(s) and s[i] not in b" \t":
        i += 1
    while i < len(s) and s[i] in b" \t":
        i += 1
    return s[i:]


def split(s):
    f = cstr(s).split(b"\1", MAX_FIELDS - 1)
    return f


def sgn(c):
    return c - 256 if c > 127 else c


def wildmat(text, pat):
    """shell-style match: * ? [class] [^class] and backslash quoting; an
    unterminated class matches nothing."""
    T, P = len(text), len(pat)
    memo = {}

    def m(t, p):
        k = (t, p)
        if k in memo:
            return memo[k]
        r = m2(t, p)
        memo[k] = r
        return r

    def m2(t, p):
        while p < P:
            c = pat[p]
            if c == 0x2A:
                while p < P and pat[p] == 0x2A:
                    p += 1
                if p == P:
                    return True
                return any(m(k, p) for k in range(t, T))
            if t >= T:
                return False
            if c == 0x3F:
                t += 1
                p += 1
                continue
            if c == 0x5B:
                ch = sgn(text[t])
                q = p
                neg = q + 1 < P and pat[q + 1] == 0x5E
                if neg:
                    q += 1
                hit = False
                if q + 1 < P and pat[q + 1] in b"]-":
                    q += 1
                    hit = sgn(pat[q]) == ch
                last = sgn(pat[q])
                while True:
                    q += 1
                    if q >= P or pat[q] == 0x5D:
                        break
                    if pat[q] == 0x2D and q + 1 < P and pat[q + 1] != 0x5D:
                        q += 1
                        if last <= ch <= sgn(pat[q]):
                            hit = True
                    elif sgn(pat[q]) == ch:
                        hit = True
                    last = sgn(pat[q])
                if q >= P or hit == neg:
                    return False
                t += 1
                p = q + 1
                continue
            if c == 0x5C:
                p += 1
                if p >= P:
                    return False
                c = pat[p]
            if text[t] != c:
                return False
            t += 1
            p += 1
        return t == T
    return m(0, 0)


class NL:
    """bounded most-recent-first list of names, case insensitive"""
    def __init__(self, mx):
        self.max = mx
        self.l = []

    def put(self, name):
        for i, x in enumerate(self.l):
            if ieq(x, name):
                self.l.insert(0, self.l.pop(i))
                return
        if len(self.l) >= self.max:
            self.l.pop()
        self.l.insert(0, name)

    def delete(self, name):
        for i, x in enumerate(self.l):
            if ieq(x, name):
                self.l.pop(i)
                return True
        return False

    def present(self, name):
        return any(ieq(x, name) for x in self.l)

    def match(self, name):
        return any(wildmat(name, x) for x in self.l)

    def clear(self):
        self.l = []

    def __len__(self):
        return len(self.l)


class User:
    def __init__(self, fd):
        self.fd = fd
        self.loginid = self.nodeid = self.nick = self.password = b""
        self.realname = self.group = self.awaymsg = b""
        self.lastaway = 0
        self.lastawaytime = 0
        self.login = LOGIN_FALSE
        self.echoback = 0
        self.nobeep = 0
        self.slow = False
        self.t_on = self.t_recv = self.t_group = 0
        self.secure = False
        self.bricks = 5
        self.lists()
        self.kill = 0
        self.lpriv = -1
        self.pong_req = -1
        self.ping_time = 0      # microseconds
        self.recv_count = 0
        self.dropped = False
        self.dying = False
        self.ip = b""

    def lists(self):
        self.pri_n = NL(MAX_HUSHED)
        self.pub_n = NL(MAX_HUSHED)
        self.pri_s = NL(MAX_HUSHED)
        self.pub_s = NL(MAX_HUSHED)
        self.n_not = NL(MAX_NOTIFIES)
        self.s_not = NL(MAX_NOTIFIES)

    @property
    def reg(self):
        return len(self.realname) > 0

    @property
    def addr(self):
        return uc(self.loginid + b"@" + self.nodeid)

    @property
    def fid(self):
        return self.nick + b" (" + self.loginid + b"@" + self.nodeid + b")"


class Group:
    def __init__(self, name):
        self.name = name
        self.topic = b""
        self.vis = VISIBLE
        self.control = PUBLIC
        self.volume = LOUD
        self.mod = -1
        self.missingmod = b""
        self.modtimeout = 0
        self.n_inv = NL(MAX_INVITES)
        self.nr_inv = NL(MAX_INVITES)
        self.s_inv = NL(MAX_INVITES)
        self.sr_inv = NL(MAX_INVITES)
        self.n_talk = NL(MAX_INVITES)
        self.nr_talk = NL(MAX_INVITES)
        self.size = 0
        self.idleboot = DEF_IDLE_BOOT
        self.idlebootmsg = b""
        self.idlemod = DEF_IDLE_MOD


class Core:
    """tables, sending, login, open messages, idle processing"""

    def __init__(self, host, now, max_users, admin_pwd=b"ci_test_pwd", motd=None, files=None, zone=(b"UTC", 0)):
        self.zone = zone
        self.NS = max_users - 1
        self.max_users = max_users
        self.host = host
        self.admin_pwd = admin_pwd
        self.now_us = int(now * 1000000)
        self.files = files or {}
        self.u = {}
        self.g = {}
        self.out = {}
        self.closed = set()
        self.is_booting = False
        self.time_to_die = -1
        self.shutdown_notify = 0
        self.exited = False
        self.follow = False      # driven by what the event loop was seen to do
        self.shutdown_exit = False
        self.stats = dict(signons=0, boots=0, drops=0, idleboots=0, idlemods=0)
        self.start = self.now
        s = User(self.NS)
        s.loginid, s.nodeid, s.nick, s.group = b"server", host[:MAX_NODELEN], b"Server", b"ICB"
        s.nobeep = 1
        s.login = LOGIN_COMPLETE
        s.t_on = s.t_recv = self.now
        s.realname = b"registered"
        self.u[self.NS] = s
        g = Group(b"ICB")
        g.topic = b"...here to serve you!"
        g.vis, g.control, g.mod, g.volume = SUPERSECRET, RESTRICTED, self.NS, QUIET
        self.g[0] = g
        self.events = []        # tags of what happened in this step, for evidence
        self.asked = set()      # whose authorization was looked at
        self.loglines = []      # (level, time, text) expected in the log
        self.log_open = True
        self.init_db()

    @property
    def now(self):
        return self.now_us // 1000000

    def ev(self, tag):
        self.events.append(tag)

    # -- tables
    def slots(self):
        return [self.u[k] for k in sorted(self.u)]

    def real(self):
        return [self.u[k] for k in sorted(self.u) if k < self.NS]

    def groups(self):
        return [(k, self.g[k]) for k in sorted(self.g)]

    def find_user(self, name):
        if not name:
            return -1
        for x in self.slots():
            if ieq(x.nick, name):
                return x.fd
        return -1

    def find_group(self, name):
        if not name:
            return -1
        for k, x in self.groups():
            if ieq(x.name, name):
                return k
        return -1

    def grp(self, user):
        return self.g.get(self.find_group(user.group))

    def count(self, name):
        if not name:
            return 0
        return sum(1 for x in self.slots() if ieq(x.group, name))

    def clear_group(self, gi):
        del self.g[gi]
        self.ev("group-destroyed")

    def clear_user(self, fd):
        u = self.u.pop(fd)
        if u.login > LOGIN_FALSE:
            self.db_signoff(u)
        for x in self.u.values():
            if x.lpriv == fd:
                x.lpriv = -1
            if x.pong_req == fd:
                x.pong_req = -1
            if x.lastaway == fd:
                x.lastaway = 0
        return u

    # -- sending
    def raw(self, to, payload):
        if to < 0:
            return
        if to >= self.NS:
            return self.to_server(payload)
        u = self.u.get(to)
        if u is None or u.kill > 0 or u.dropped:
            return
        assert len(payload) <= 254, payload
        self.out.setdefault(to, []).append(payload)

    def to_server(self, payload):
        pass

    def error(self, to, msg):
        self.raw(to, b"e" + filtertext(msg, MAX_PKT_DATA - 1))

    def status(self, to, cat, msg):
        self.raw(to, b"d" + filtertext(cat, 20) + b"\1" + filtertext(msg, 232))

    def important(self, to, cat, msg):
        self.raw(to, b"f" + filtertext(cat, 20) + b"\1" + filtertext(msg, 232))

    def cmdout(self, to, msg):
        self.raw(to, b"ico\1" + filtertext(msg, 250))

    def cmdend(self, to, msg):
        self.raw(to, b"iec\1\1" + filtertext(msg, 249))

    def sendexit(self, to):
        self.raw(to, b"g")

    def open_(self, frm, to, msg):
        self.raw(to, b"b" + self.u[frm].nick + b"\1" + filtertext(msg, 240))

    def hushed_pri(self, to, frm):
        t, f = self.u[to], self.u[frm]
        return t.pri_s.match(f.addr) or t.pri_n.match(uc(f.nick))

    def person(self, frm, to, msg):
        f, t = self.u[frm], self.u[to]
        if not self.hushed_pri(to, frm):
            t.lpriv = frm
            p = b"c" + f.nick + b"\1" + filtertext(msg, 240)
            if to >= self.NS:
                self.server_cmd(frm, p)
            else:
                self.raw(to, p)
            return True
        self.status(frm, b"Bounce", b"Message did not go through")
        return False

    def person_stored(self, to, nick, msg):
        self.raw(to, b"c" + filtertext(nick, 12) + b"\1" + filtertext(msg, 240))

    def server_cmd(self, frm, payload):
        f = split(payload[1:])
        line = (getword(f[1]) + b"\1" + get_tail(f[1]))[:MAX_PKT_DATA - 3]
        self.cmdmsg(frm, line)

    # -- the log
    def log(self, level, text):
        if self.log_open and (level == -1 or level <= self.log_level):
            self.loglines.append((level, self.now, text))

    def log_auth(self, fd):
        u = self.u[fd]
        self.log(3, b"Checking authorization of " + u.nick + b": " + (b"yes" if self.check_auth(fd) else b"no"))

    # -- connections
    def connect(self, fd, nodeid, secure=False, server_version=None, ip=b""):
        u = User(fd)
        u.ip = ip
        self.seq += 1
        u.seq = self.seq
        u.nodeid = nodeid[:MAX_NODELEN]
        u.secure = secure
        self.u[fd] = u
        self.log(3, b"[CONNECT%s] %d: %s" % (b" (SSL)" if secure else b"", fd, nodeid))
        if server_version is not None:
            self.raw(fd, b"j1\1" + self.host + b"\1" + server_version)

    def lost(self, fd):
        """the connection is gone (for whatever reason)"""
        u = self.u.get(fd)
        if u is None:
            return
        self.closed.add(fd)
        if u.login == LOGIN_FALSE:
            self.log(3, b"[LOST] %d: not logged in" % fd)
            self.clear_user(fd)
            return
        self.log(3, b"[LOST] %d: %s@%s" % (fd, u.loginid, u.nodeid))
        killed = u.kill
        if u.login >= LOGIN_COMPLETE:
            for x in self.slots():
                if x.fd != fd and x.login > LOGIN_FALSE:
                    if x.n_not.match(uc(u.nick)) or x.s_not.match(u.addr):
                        if self.grp(u).vis != SUPERSECRET:
                            self.status(x.fd, b"Notify-Off", u.nick + b" (" + u.addr + b") has just signed off")
                            self.ev("notify-off")
        self.clear_user(fd)
        gi = self.find_group(u.group)
        if gi >= 0:
            if self.count(u.group) > 0:
                if self.g[gi].volume != QUIET:
                    self.status_group(2, 0, gi, b"Sign-off", u.fid +
                                      (b" has been disconnected." if killed else b" has signed off."))
            else:
                self.clear_group(gi)
        for gi, g in self.groups():
            if g.mod != fd:
                continue
            if not self.count(g.name):
                continue
            if not u.reg:
                if g.volume != QUIET:
                    self.status_group(2, 0, gi, b"Sign-off", b"Your group moderator signed off. (No timeout)")
                g.mod = self.least_idle(g)
                self.ev("mod-succession")
                if g.mod >= 0:
                    self.status_group(2, 0, gi, b"Pass", self.u[g.mod].nick + b" is now mod.")
            else:
                self.status_group(2, 0, gi, b"Mod", b"Your group moderator signed off. (%d second timeout)" % MOD_TIMEOUT)
                g.mod = -1
                g.missingmod = u.nick
                g.modtimeout = self.now + MOD_TIMEOUT
                self.ev("mod-timeout-start")

    def least_idle(self, g, skip_away=False):
        new = -1
        for x in self.slots():
            if x.login >= LOGIN_COMPLETE and ieq(x.group, g.name) and not (skip_away and x.awaymsg):
                if new == -1 or x.t_recv > self.u[new].t_recv:
                    new = x.fd
        return new

    # -- packets
    NOTHANDLED = dict(c="PERSONAL", d="STATUS", e="ERROR", f="IMPORTANT", g="EXIT", i="CMDOUT",
                      j="PROTO", k="BEEP", l="PING")

    def packet(self, fd, payload):
        """payload: type byte and data"""
        seq = self.u[fd].seq
        self.packet1(fd, payload)
        if not self.follow:
            # (connections are looked at in the order they were accepted; idle processing comes after all of them)
            for x in sorted((x for x in self.real() if x.dropped and x.seq > seq), key=lambda x: x.seq):
                self.lost(x.fd)

    def packet1(self, fd, payload):
        payload = cstr(payload)
        t = payload[:1]
        u = self.u[fd]
        if t == b"a":
            if self.loginmsg(fd, payload[1:]) < 0:
                self.sendexit(fd)
                u.kill += 1
        elif t == b"b":
            self.openmsg(fd, payload[1:])
        elif t == b"h":
            self.cmdmsg(fd, payload[1:])
        elif t == b"m":
            self.pong(fd)
        elif t == b"n":
            pass
        elif t.decode("latin1") in self.NOTHANDLED and t:
            self.error(fd, b"Server doesn't handle ICB_M_" + self.NOTHANDLED[t.decode()].encode() + b" packets")
        else:
            # with an empty type the %c prints a NUL, which ends the text
            msg = b"%d: Invalid packet type \"" % fd
            if t:
                msg += t + b"\" (" + payload + b")"
            self.error(fd, msg)
            self.log(1, msg)

    def openmsg(self, fd, text):
        u = self.u[fd]
        if u.login < LOGIN_COMPLETE:
            self.log(3, b"%d: cannot send open messages until logged in (%s)" % (fd, text))
            return
        if u.awaymsg:
            self.status(fd, b"Away", b"Your away is still set...")
        if u.group == b"1":
            u.recv_count += 1
            if u.t_recv == self.now:
                if u.recv_count > 2:
                    self.ev("spam-boot")
                    self.status(fd, b"Boot", b"No spamming in group 1.")
                    self.status_group(1, 1, fd, b"Boot", u.nick + b" was auto-booted for spamming.")
                    self.is_booting = True
                    self.change(fd, b"ICB")
                    self.is_booting = False
            else:
                u.recv_count = 0
        u.t_recv = self.now
        f = split(text)
        if len(f) != 1:
            return
        self.log(3, b"[OPEN] %d" % fd)
        g = self.grp(u)
        if g.volume == QUIET:
            self.error(fd, b"Open messages not permitted in quiet groups.")
            self.ev("open-quiet")
        elif g.control == CONTROLLED and g.mod != fd and not (
                g.n_talk.present(u.nick) or (u.reg and g.nr_talk.present(u.nick))):
            self.error(fd, b"You do not have permission to send open messages in this group.")
            self.ev("open-denied")
            if g.mod >= 0:
                self.status(fd, b"INFO", b"Use \"/m " + self.u[g.mod].nick + b" may i talk?\" to request permission.")
        elif self.count(g.name) < 2:
            self.error(fd, b"No one else in group!")
        else:
            self.send_group(fd, f[0])

    def pong(self, fd):
        u = self.u[fd]
        if u.login < LOGIN_COMPLETE:
            return
        if u.pong_req != -1:
            d = self.now_us - u.ping_time
            self.status(u.pong_req, b"PONG", b"%s client responded in %d.%02d seconds." %
                        (u.nick, d // 1000000, d % 1000000 // 10000))
            u.pong_req = -1
            self.ev("pong")
        else:
            self.status(fd, b"PONG", b"You were pinged, but they aren't there to receive your pong.")

    # -- idle processing (one pass)
    def idle(self):
        now = self.now
        if self.time_to_die > 0 and now >= self.time_to_die:
            self.exited = True
            return
        for lead, lvl, what in ((300, 0, b"5 minutes"), (60, 1, b"1 minute")):
            if self.time_to_die > 0 and now >= self.time_to_die - lead and self.shutdown_notify == lvl:
                for x in self.real():
                    if x.login > LOGIN_FALSE:
                        self.important(x.fd, b"Shutdown", b"Server shutting down in " + what + b"!")
                self.shutdown_notify += 1
                self.ev("shutdown-notice")
        for x in self.real():
            if x.kill > 0:
                if not (self.follow and x.dying):
                    self.log(3, b"[KILL] killing %d (%d)" % (x.fd, x.kill))
                if self.follow:
                    # (the event loop says when the connection is closed)
                    if not x.dying:
                        x.dying = x.dropped = True
                        if x.login > LOGIN_FALSE:
                            self.stats["drops"] += 1
                    continue
                if x.login > LOGIN_FALSE:
                    self.stats["drops"] += 1
                self.lost(x.fd)
        for gi, g in self.groups():
            if g.control != PUBLIC and g.mod >= 0:
                mod = self.u[g.mod]
                idle = now - mod.t_recv
                if idle > g.idlemod and any(
                        x.fd != g.mod and x.login >= LOGIN_COMPLETE and not x.awaymsg and ieq(x.group, g.name)
                        and now - x.t_recv < idle for x in self.real()):
                    self.ev("idle-mod")
                    self.status(g.mod, b"Idle-Mod", IDLE_MOD_MSG % (b"you", g.name))
                    if g.volume != QUIET:
                        msg = IDLE_MOD_MSG % (mod.nick, g.name)
                        if self.find_group(mod.group) == gi:
                            self.status_group(1, 0, mod.fd, b"Idle-Mod", msg)
                        else:
                            self.status_group(2, 0, gi, b"Idle-Mod", msg)
                    g.modtimeout = 1
                    self.stats["idlemods"] += 1
            if g.modtimeout > 0 and g.modtimeout < now:
                new = self.least_idle(g, True)
                if new != -1:
                    g.mod = new
                    g.modtimeout = 0
                    g.missingmod = b""
                    self.status_group(2, 0, gi, b"Timeout", self.u[new].nick + b" is now mod.")
                    self.ev("mod-timeout")
        for x in self.real():
            if x.login < LOGIN_COMPLETE:
                continue
            g = self.grp(x)
            if g is None or ieq(x.group, IDLE_GROUP) or g.idleboot <= 0:
                continue
            if now - x.t_recv > g.idleboot:
                self.ev("idle-boot")
                self.log(3, b"[IDLE_BOOT] %d (%d > %d)" % (x.fd, now - x.t_recv, g.idleboot))
                msg = g.idlebootmsg or IDLE_BOOT_MSG
                self.status(x.fd, b"Idle-Boot", cfmt(msg, b"you"))
                if g.volume != QUIET:
                    self.status_group(1, 0, x.fd, b"Idle-Boot", cfmt(msg, x.nick))
                for gj, h in self.groups():
                    if h.mod == x.fd:
                        h.mod = self.least_idle(h)
                        if h.mod >= 0:
                            m = self.u[h.mod].nick + b" is now mod."
                            if h.name == x.group:
                                self.status_group(1, 0, x.fd, b"Pass", m)
                            else:
                                self.status_group(2, 0, gj, b"Pass", m)
                self.is_booting = True
                self.change(x.fd, IDLE_GROUP)
                self.is_booting = False
                self.stats["idleboots"] += 1
        if not self.follow:
            for x in sorted((x for x in self.real() if x.dropped), key=lambda x: x.seq):
                self.lost(x.fd)

    # -- group change
    def invited(self, u, g):
        return (g.n_inv.present(u.nick) or g.s_inv.match(u.addr) or
                (u.reg and (g.nr_inv.present(u.nick) or g.sr_inv.match(u.addr))))

    def probe(self, u, g, msg):
        if g.mod > 0 and g.volume == LOUD and not self.hushed_pri(g.mod, u.fd):
            self.status(g.mod, b"Probe", u.nick + msg)
            self.u[g.mod].lpriv = u.fd

    def change(self, fd, name, login=False):
        u = self.u[fd]
        if name[:1] == b"@":
            t = self.find_user(name[1:])
            tg = self.grp(self.u[t]) if t >= 0 else None
            if tg is None or tg.vis != VISIBLE:
                self.error(fd, b"User not found.")
                self.ev("join-at-hidden" if tg else "join-at-nobody")
                return -1
            return self.change(fd, self.u[t].group)
        if not name:
            self.error(fd, b"Null groupnames are not allowed.")
            return -1
        if name[:2] == b"..":
            vis, name = SUPERSECRET, name[2:]
        elif name[:1] == b".":
            vis, name = SECRET, name[1:]
        else:
            vis = VISIBLE
        name = name[:MAX_GROUPLEN]
        if not name:
            self.error(fd, b"Group name too short.")
            return -1
        name = filtergroup(name)
        gi = self.find_group(name)
        if gi < 0:
            gi = next((k for k in range(MAX_GROUPS) if k not in self.g), -1)
            if gi < 0:
                self.error(fd, b"Too many groups!")
                return -1
            g = self.g[gi] = Group(name)
            g.vis = vis
            self.ev("group-created")
            if ieq(name, BOOT_GROUP):
                g.vis, g.topic = SECRET, b"Boot-ees"
            elif ieq(name, IDLE_GROUP):
                g.vis, g.volume, g.idleboot, g.topic = VISIBLE, QUIET, 0, b"Idlers"
            elif name != b"1":
                g.control, g.mod = MODERATED, fd
        g = self.g[gi]
        if g.control == RESTRICTED:
            if not (self.check_auth(fd) or g.mod == fd or self.invited(u, g) or self.is_booting):
                self.error(fd, name + b" is restricted.")
                self.ev("join-refused-restricted")
                self.probe(u, g, b" tried to enter the group.")
                return -1
            self.ev("join-restricted-ok")
        ogi = self.find_group(u.group)
        if g.control in (MODERATED, CONTROLLED) and g.size > 0:
            n = sum(1 for x in self.real() if ieq(x.group, g.name))
            if n >= g.size and g.mod != fd:
                self.probe(u, g, b" tried to enter the group, but it's full.")
                self.error(fd, b"Group " + name + b" is full.")
                self.ev("join-refused-full")
                return -1
        if gi == ogi:
            self.error(fd, b"You are already in that group!")
            return -1
        u.group = g.name
        self.ev("join")
        if g.volume != QUIET:
            self.status_group(1, 0, fd, b"Sign-on" if u.login < LOGIN_COMPLETE or login else b"Arrive",
                              u.fid + b" entered group")
        self.status(fd, b"Status", b"You are now in group " + g.name + (b" as moderator" if g.mod == fd else b""))
        u.t_group = self.now
        if ogi >= 0:
            o = self.g[ogi]
            if self.count(o.name) > 0:
                if o.volume != QUIET:
                    self.status_group(2, 0, ogi, b"Depart", u.fid + b" just left")
                    if o.mod == fd:
                        self.important(fd, b"Mod", b"You are still mod of group " + o.name)
            else:
                self.clear_group(ogi)
        return 0


def cfmt(fmt, *args):
    """printf with %s and %% only; missing arguments are empty"""
    out = bytearray()
    args = list(args)
    i = 0
    while i < len(fmt):
        if fmt[i:i + 2] == b"%s":
            out += args.pop(0) if args else b""
            i += 2
        elif fmt[i:i + 2] == b"%%":
            out += b"%"
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return bytes(out)


def atoi(s):
    i = 0
    while i < len(s) and s[i] in b" \t\n\v\f\r":
        i += 1
    j = i
    if j < len(s) and s[j] in b"+-":
        j += 1
    k = j
    while k < len(s) and 0x30 <= s[k] <= 0x39:
        k += 1
    if k == j:
        return 0
    v = int(s[i:k])
    v = max(-2**63, min(2**63 - 1, v))
    v &= 0xFFFFFFFF
    return v - 2**32 if v & 0x80000000 else v


def filterfmt(msg, want):
    """-> (error or None, number of %s)"""
    num = bad = 0
    i = msg.find(b"%")
    while i >= 0:
        i += 1
        c = msg[i:i + 1]
        if c == b"s":
            num += 1
        elif c == b"%":
            i += 1
        else:
            bad += 1
        i = msg.find(b"%", i)
    BAD = b"Message can't include %d, %f and such. Use %% to quote a single %."
    if bad:
        return BAD, -1
    if num != want:
        return b"Message must contain (only) %d %%s for the username." % want, num
    return None, num


def plural(n, s=b"s"):
    return b"" if n == 1 else s


class Usage(Exception):
    pass


def flags(s, allowed, exclusive=()):
    """leading -flags; each one (or one of an exclusive pair) at most once"""
    got = set()
    while s[:1] == b"-":
        w = getword(s)
        for c in w[1:].decode("latin1"):
            if c not in allowed:
                raise Usage
            if c in got or any(c in e and got & set(e) for e in exclusive):
                raise Usage
            got.add(c)
        s = get_tail(s)
    return got, s


class GroupCmds:
    MAX_LINE = 75

    def add_item(self, n, item, buf):
        if len(item) + 1 >= self.MAX_LINE:
            return buf
        if len(item) + len(buf) + 1 >= self.MAX_LINE:
            self.cmdout(n, buf)
            return item if item != b", " else b""
        return buf + item

    def status_group(self, k, tellme, n, cat, msg):
        name = self.u[n].group if k == 1 else self.g[n].name
        for x in self.real():
            if name and ieq(x.group, name) and (tellme or k != 1 or x.fd != n):
                self.status(x.fd, cat, msg)
            elif not name and not x.group and (tellme or k != 1 or x.fd != n):
                raise AssertionError("status to no group")

    def send_group(self, fd, text):
        u = self.u[fd]
        self.ev("open-sent")
        for x in self.real():
            if (x.fd != fd or u.echoback) and x.login == LOGIN_COMPLETE and ieq(x.group, u.group):
                if x.pub_s.match(u.addr) or x.pub_n.match(uc(u.nick)):
                    self.ev("open-hushed")
                else:
                    self.open_(fd, x.fd, text)

    def c_exclude(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        who, text = getword(f[1]), get_tail(f[1])
        if not text:
            self.error(fd, b"Empty message.")
            return
        g = self.grp(u)
        if g.volume == QUIET:
            self.error(fd, b"Open messages not permitted in quiet groups.")
            return
        if g.control == CONTROLLED and g.mod != fd and not (
                g.n_talk.present(u.nick) or (u.reg and g.nr_talk.present(u.nick))):
            self.error(fd, b"You do not have permission to send open messages in this group.")
            self.ev("exclude-denied")
            return
        j = self.find_user(who)
        name = self.u[j].nick if j >= 0 else who
        for x in self.real():
            if (x.fd != fd or u.echoback) and x.login >= LOGIN_COMPLETE and ieq(x.group, u.group) \
                    and not x.pub_s.match(u.addr) and not x.pub_n.match(uc(u.nick)) and not ieq(x.nick, who):
                self.status(x.fd, b"Exclude", u.nick + b"'s next message excludes " + name + b":")
                self.open_(fd, x.fd, text)
                self.ev("exclude-sent")

    def c_g(self, fd, f):
        # (an extra field makes it look like the join of a login)
        if len(f) in (2, 3):
            self.change(fd, f[1], len(f) == 3)

    def c_cancel(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        g = self.grp(u)
        try:
            fl, who = flags(f[1], "qsn", ("sn",))
        except Usage:
            self.error(fd, b"Usage: cancel {-q} {-n nickname | -s address}")
            return
        site = "s" in fl
        if site:
            who = uc(who)
        if not (g.control == RESTRICTED and g.mod == fd):
            if g.control != RESTRICTED:
                self.error(fd, b"The group isn't restricted.")
            if g.mod != fd:
                self.error(fd, b"You aren't the moderator.")
            return
        if not site and (g.n_inv.delete(who) or g.nr_inv.delete(who)):
            self.ev("cancel")
            if "q" not in fl:
                self.status(fd, b"FYI", who + b" cancelled")
            if self.find_user(who) < 0:
                self.status(fd, b"Warning", who + b" is not signed on")
        elif site and (g.s_inv.delete(who) or g.sr_inv.delete(who)):
            self.ev("cancel")
            if "q" not in fl:
                self.status(fd, b"FYI", who + b" cancelled")
        else:
            self.status(fd, b"Warning", who + b" was not invited")

    def list_names(self, fd, title, plain, reg):
        line = b""
        for i, x in enumerate(plain.l):
            line = self.add_item(fd, title if i == 0 else b", ", line)
            line = self.add_item(fd, x, line)
        for x in reg.l:
            line = self.add_item(fd, title if not line else b", ", line)
            line = self.add_item(fd, x + b"(r)", line)
        if line:
            self.cmdout(fd, line)

    def list_invites(self, fd, g):
        self.list_names(fd, b"Nicks invited: ", g.n_inv, g.nr_inv)
        self.list_names(fd, b"Addrs invited: ", g.s_inv, g.sr_inv)
        return len(g.n_inv) + len(g.nr_inv) + len(g.s_inv) + len(g.sr_inv)

    def c_invite(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        g = self.grp(u)
        try:
            fl, who = flags(f[1], "qsnr", ("sn",))
        except Usage:
            self.error(fd, b"Usage: invite {-q} {-r} {-n nickname | -s address}")
            return
        restricted, mod = g.control == RESTRICTED, g.mod == fd
        if not who:
            if not restricted:
                self.status(fd, b"Invite", b"Invite lists only function in restricted groups.")
            elif self.list_invites(fd, g) < 1:
                self.status(fd, b"Invite", b"No one on invite list")
            return
        site, r = "s" in fl, "r" in fl
        if site:
            who = uc(who)
        if restricted and mod:
            l = (g.sr_inv if r else g.s_inv) if site else (g.nr_inv if r else g.n_inv)
            l.put(who)
            self.ev("invite")
            if "q" not in fl:
                self.status(fd, b"FYI", who + (b" invited (registered only)" if r else b" invited"))
        if not site and (not restricted or mod):
            d = self.find_user(who)
            if d >= 0:
                if self.u[d].reg or not r:
                    self.status(d, b"RSVP", b"You are invited to group " + u.group + b" by " + u.nick)
            else:
                self.status(fd, b"Warning", who + b" is not signed on.")
        if site and not restricted:
            self.error(fd, b"The group isn't restricted.")
        if not mod and restricted:
            self.error(fd, b"You aren't the moderator.")

    def c_pass(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        g = self.grp(u)
        if not (self.check_auth(fd) or g.mod == fd):
            self.error(fd, b"You aren't the moderator.")
            self.ev("not-mod")
            return
        if not f[1]:
            g.mod = -1
            self.ev("relinquish")
            if g.volume != QUIET:
                self.status_group(1, 1, fd, b"Pass", u.nick + b" just relinquished the mod.")
            if g.control == CONTROLLED:
                g.control = PUBLIC
                if g.volume != QUIET:
                    self.status_group(1, 1, fd, b"Change", b"Group is now public.")
            return
        who = getword(f[1])
        if not who:
            return
        if ieq(who, b"server"):
            self.error(fd, b"Cannot pass to Server.")
            return
        d = self.find_user(who)
        if d < 0:
            self.error(fd, who + b" is not on!")
            return
        g.mod = d
        self.ev("pass")
        self.status(d, b"Pass", u.nick + b" just passed you moderation of group " + g.name)
        if g.volume != QUIET:
            self.status_group(1, 1, fd, b"Pass", u.nick + b" has passed moderation to " + self.u[d].nick)

    def c_boot(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        gi = self.find_group(u.group)
        g = self.g[gi]
        if not (self.check_auth(fd) or g.mod == fd):
            self.error(fd, b"You aren't the moderator.")
            self.ev("not-mod")
            return
        who, msg = getword(f[1]), get_tail(f[1])
        d = self.find_user(who)
        if d < 0:
            self.status(fd, b"Warning", who + b" is not signed on")
            return
        if ieq(who, b"ADMIN"):
            self.error(fd, b"You nobk! You can't boot the admin!")
            self.status(d, b"Boot Attempt!", u.nick + b" tried to boot you!")
            return
        num = 0
        if msg:
            r, num = filterfmt(msg, 1)
            if r and num != 0:
                self.error(fd, r)
                return
        x = self.u[d]
        if self.find_group(x.group) != gi:
            self.error(fd, f[1] + b" is not in your group")
            return
        if g.n_inv.delete(x.nick) or g.nr_inv.delete(x.nick):
            self.status(fd, b"FYI", x.nick + b" cancelled")
        if msg:
            m = x.nick + b" " + msg if num == 0 else cfmt(msg, x.nick)
        else:
            m = x.nick + b" was booted."
        if g.volume != QUIET:
            self.status_group(1, 1, fd, b"Boot", m)
        self.status(d, b"Boot", u.nick + b" booted you.")
        self.ev("boot")
        self.is_booting = True
        self.change(d, BOOT_GROUP)
        self.is_booting = False
        self.stats["boots"] += 1

    VIS = {VISIBLE: b"Visible", SECRET: b"Secret", SUPERSECRET: b"Invisible"}
    CON = {PUBLIC: b"Public", MODERATED: b"Moderated", RESTRICTED: b"Restricted", CONTROLLED: b"Controlled"}
    VOL = {QUIET: b"Quiet", NORMAL: b"Normal", LOUD: b"Loud"}

    @staticmethod
    def hm(s):
        h, m = s // 3600, s % 3600 // 60
        return b"%d hour%s, %d minute%s" % (h, plural(h), m, plural(m))

    def c_status(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        gi = self.find_group(u.group)
        g = self.g[gi]
        if not f[1]:
            mod = self.u[g.mod].nick if g.mod >= 0 else b"None" if g.modtimeout == 0 else g.missingmod
            self.cmdout(fd, b"Name: %s Mod: %s (%s / %s / %s)" %
                        (g.name, mod, self.VIS[g.vis], self.CON[g.control], self.VOL[g.volume]))
            self.list_invites(fd, g)
            self.list_names(fd, b"Nicks who can talk: ", g.n_talk, g.nr_talk)
            self.cmdout(fd, b"Size: no limit" if not g.size else
                        b"Size: %d user%s limit" % (g.size, plural(g.size)))
            self.cmdout(fd, b"Idle-Boot: " + (self.hm(g.idleboot) if g.idleboot else b"no limit"))
            if g.idlebootmsg:
                self.cmdout(fd, b"Idle-Boot Message: " + g.idlebootmsg)
            if g.control != PUBLIC:
                self.cmdout(fd, b"Idle-Mod: " + (self.hm(g.idlemod) if g.idlemod else b"no limit"))
            return
        has_mod = g.mod != -1 or g.modtimeout > 0
        for nm in (b"1", IDLE_GROUP, BOOT_GROUP):
            if ieq(g.name, nm):
                self.error(fd, b"Can't change group " + nm + b"!")
                return
        if g.mod != fd and has_mod and g.control != PUBLIC:
            self.error(fd, b"You aren't the moderator.")
            self.ev("not-mod")
            return
        p = f[1]
        cannot = {b"r": b"become restricted", b"m": b"become moderated", b"c": b"become controlled",
                  b"b": b"have idleboot changed", b"im": b"have idlemod changed", b"q": b"be changed to quiet"}
        while True:
            w = getword(p)
            if not w:
                break
            o = lc(w)
            if not has_mod and o in cannot:
                self.error(fd, b"Groups without a moderator cannot " + cannot[o] + b".")
                self.ev("status-no-mod")
                if o in (b"b", b"im"):
                    p = get_tail(p)
            else:
                msg = None
                if o == b"r":
                    g.control = RESTRICTED
                    msg = b"Group is now restricted."
                    for x in self.slots():
                        if ieq(x.group, g.name):
                            (g.nr_inv if x.reg else g.n_inv).put(x.nick)
                            if g.mod > 0:
                                self.status(g.mod, b"FYI", x.nick + b" invited")
                            self.status(x.fd, b"FYI", b"You are invited to group " + g.name + b" by default.")
                elif o in (b"m", b"c", b"p"):
                    g.control = {b"m": MODERATED, b"c": CONTROLLED, b"p": PUBLIC}[o]
                    for l in (g.n_inv, g.nr_inv, g.s_inv, g.sr_inv):
                        l.clear()
                    msg = {b"m": b"Group is now moderated.", b"c": b"Group is now controlled.",
                           b"p": u.nick + b" made group public."}[o]
                elif o in (b"i", b"s", b"v"):
                    g.vis, t = {b"i": (SUPERSECRET, b"invisible"), b"s": (SECRET, b"secret"),
                                b"v": (VISIBLE, b"visible")}[o]
                    msg = u.nick + b" made group " + t + b"."
                elif o in (b"q", b"n", b"l"):
                    g.volume, t = {b"q": (QUIET, b"quiet"), b"n": (NORMAL, b"normal"), b"l": (LOUD, b"loud")}[o]
                    msg = u.nick + b" made group " + t + b"."
                elif o == b"#":
                    p = get_tail(p)
                    w = getword(p)
                    v = atoi(w)
                    if not w or v < 0 or v > self.NS:
                        self.error(fd, b"Size must be between 0 and %d." % self.NS)
                    else:
                        g.size = v
                        msg = u.nick + (b" removed group size limit." if v == 0 else
                                        b" made group limited to %d users." % v)
                elif o == b"b":
                    p = get_tail(p)
                    w = getword(p)
                    v = atoi(w)
                    if not w:
                        self.error(fd, b"Idle-Boot must be specified in number of minutes (0=disabled).")
                    elif v < 0 or v > (2**31 - 1) // 60:
                        self.error(fd, b"Idle-Boot must be > 0 (or 0 to disable).")
                    else:
                        g.idleboot = v * 60
                        if v == 0:
                            msg = u.nick + b" disabled idle-boot."
                        elif v > 59:
                            msg = u.nick + b" set idle-boot to " + self.hm(v * 60) + b"."
                        else:
                            msg = u.nick + b" set idle-boot to %d minute%s." % (v, plural(v))
                elif o == b"idlebootmsg":
                    p = get_tail(p)
                    if not p or len(p) > 54:
                        self.error(fd, b"Idle-Boot message length must be between 1 and 54 (yours was %d)." % len(p))
                    else:
                        r, _ = filterfmt(p, 1)
                        if r:
                            self.error(fd, r)
                        else:
                            g.idlebootmsg = p
                            self.status(fd, b"Change", b"Idle-boot msg: " + p)
                    p = b""
                elif o == b"im":
                    p = get_tail(p)
                    w = getword(p)
                    v = atoi(w)
                    if w and v == 0:
                        self.status(fd, b"Info", b"Using maximum value allowed")
                        v = MAX_IDLE_MOD // 60
                    if not w or v < 1 or v > MAX_IDLE_MOD // 60:
                        self.error(fd, b"Idle-Mod must be between 0 and %d." % (MAX_IDLE_MOD // 60))
                    else:
                        g.idlemod = v * 60
                        if v > 59:
                            msg = u.nick + b" set idle-mod to " + self.hm(v * 60) + b"."
                        else:
                            msg = u.nick + b" set idle-mod to %d minute%s." % (v, plural(v))
                elif o == b"name":
                    p = get_tail(p)
                    w = filtergroup(getword(p))
                    n8 = w[:MAX_GROUPLEN]
                    if not w:
                        self.error(fd, b"New name may not be null.")
                    elif n8 == b"1":
                        self.error(fd, b"Cannot change name to group 1.")
                    elif self.find_group(n8) not in (-1, gi):
                        self.error(fd, b"That group already exists.")
                    else:
                        for x in self.real():
                            if ieq(x.group, g.name):
                                x.group = n8
                        g.name = n8
                        msg = u.nick + b" renamed group to " + w
                elif o == b"?":
                    for t in (b"Table Of Status Commands",
                              b"r - restricted c - controlled m - moderated p - public",
                              b"i - invisible s - secret v - visible", b"q - quiet n - normal l - loud",
                              b"name - change group name", b"? -- this table",
                              b"# - change the number of allowed users", b"b - change the idleboot setting",
                              b"idlebootmsg - change the idleboot message", b"im - change the idlemod setting"):
                        self.status(fd, b"Information", t)
                else:
                    self.error(fd, b"Option " + w + b" unknown.")
                if msg:
                    self.ev("status-change")
                    self.status_group(1, 1, fd, b"Change", msg)
            p = get_tail(p)

    def c_topic(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        g = self.grp(u)
        if not f[1]:
            self.cmdout(fd, b"The topic is: " + g.topic if g.topic else b"The topic is not set.")
            return
        if g.mod >= 0 and g.mod != fd:
            self.error(fd, b"You aren't the moderator.")
            self.ev("not-mod")
            return
        if g.name in (b"1", IDLE_GROUP, BOOT_GROUP):
            self.error(fd, b"You can't change this group's topic.")
            return
        g.topic = f[1][:MAX_TOPICLEN]
        self.ev("topic")
        if g.volume != QUIET:
            self.status_group(1, 1, fd, b"Topic", u.nick + b" changed the topic to \"" + g.topic + b"\"")

    def talk_delete(self, g, who):
        inn = g.n_talk.delete(who)
        inr = g.nr_talk.delete(who)
        d = self.find_user(who)
        if (inn or inr) and d >= 0 and (inn or self.u[d].reg):
            m = self.u[g.mod]
            self.status(d, b"TALK", b"You no longer can talk in group " + m.group + b" (no thanks to " + m.nick + b")")
        return inn or inr

    def talk_report(self, fd, first=0):
        u = self.u[fd]
        for gi, g in self.groups():
            if gi < first:
                continue
            if g.n_talk.present(u.nick) or (u.reg and g.nr_talk.present(u.nick)):
                self.cmdout(fd, b"Talk permission in: " + g.name)

    def c_talk(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        g = self.grp(u)
        use = b"Usage: talk {-a} {-q} {-r} {-d} nickname"
        try:
            fl, who = flags(f[1], "qadr")
        except Usage:
            self.error(fd, use)
            return
        if not who:
            self.error(fd, use)
        elif g.control == PUBLIC:
            self.error(fd, b"The group is public.")
        elif g.mod != fd:
            self.error(fd, b"You aren't the moderator.")
            self.ev("not-mod")
        elif "d" in fl:
            if not self.talk_delete(g, who):
                self.error(fd, who + b" is not in talk list")
            elif "q" not in fl:
                self.status(fd, b"FYI", who + b" removed from talk list")
        else:
            if "a" not in fl:
                for l, t in ((g.n_talk, b" removed from talk list"), (g.nr_talk, b" removed from registered talk list")):
                    for name in list(l.l):
                        if self.talk_delete(g, name) and "q" not in fl:
                            self.status(fd, b"FYI", name + t)
            (g.nr_talk if "r" in fl else g.n_talk).put(who)
            self.ev("talk")
            if "q" not in fl:
                self.status(fd, b"FYI", who + (b" can talk (registered only)" if "r" in fl else b" can talk"))
            d = self.find_user(who)
            if d >= 0:
                if self.u[d].reg or "r" not in fl:
                    self.status(d, b"TALK", b"You can talk in group " + u.group + b" (courtesy of " + u.nick + b")")
            else:
                self.status(fd, b"Warning", who + b" is not signed on.")

    # -- who
    def sees(self, u, g):
        return (g.n_inv.present(u.nick) or g.s_inv.match(u.addr) or u.nick == b"ADMIN" or
                (u.reg and (g.nr_inv.present(u.nick) or g.sr_inv.match(u.addr))))

    def who_one(self, fd, flag, name):
        gi = self.find_group(name)
        if gi < 0:
            self.error(fd, b"The group " + name + b" doesn't exist.")
            return
        u = self.u[fd]
        g = self.g[gi]
        if g.mod >= 0:
            mod = self.u[g.mod].nick
        elif g.modtimeout == 0:
            mod = b"(None)"
        else:
            mod = b"%s (%d)" % (g.missingmod, g.modtimeout - self.now)
        opts = b"(" + b"?pmrc"[g.control:g.control + 1] + b"?vsi"[g.vis:g.vis + 1] + b"?qnl"[g.volume:g.volume + 1] + b")"
        name = g.name
        if g.vis != VISIBLE:
            if self.find_group(u.group) != gi and not self.sees(u, g):
                name = b"-SECRET-"
                self.ev("who-masked")
            else:
                name = b"*" + name + b"*"
        self.cmdout(fd, b" ")
        self.cmdout(fd, b"Group: %-8s %s Mod: %-13s Topic: %s" % (name, opts, mod, g.topic or b"(None)"))
        if flag == "g":
            return
        members = [x for x in self.slots() if ieq(x.group, g.name)]
        if flag == "s":
            line = self.add_item(fd, b"    Members: ", b"")
            for i, x in enumerate(members):
                line = self.add_item(fd, x.nick, line)
                if i != len(members) - 1:
                    line = self.add_item(fd, b", ", line)
            if line:
                self.cmdout(fd, line)
            return
        if len(members) >= 2:
            self.raw(fd, b"iwh")
        order = []
        for x in members:
            i = 0
            while i < len(order) and x.t_group > order[i].t_group:
                i += 1
            order.insert(i, x)
        for x in order:
            st = [t for c, t in ((not x.reg, b"nr"), (x.awaymsg, b"aw"), (x.secure, b"ssl")) if c]
            self.raw(fd, b"iwl\1" + b"\1".join([
                b"m" if g.mod == x.fd else b" ", x.nick, b"%d" % (self.now - x.t_recv), b"0", b"%d" % x.t_on,
                x.loginid, x.nodeid, b"(" + b",".join(st) + b")" if st else b""]))

    def who_all(self, fd, flag):
        u = self.u[fd]
        mine = self.find_group(u.group)
        lst = [(lc(g.name), g.name) for gi, g in self.groups()
               if g.vis != SUPERSECRET or self.sees(u, g) or gi == mine]
        for _, name in sorted(lst):
            self.who_one(fd, flag, name)
        users = sum(1 for x in self.real() if x.login > LOGIN_FALSE)
        ngroups = sum(1 for gi, g in self.groups() if g.name != b"ICB" or self.count(b"ICB") > 1)
        if users == 0:
            self.cmdout(fd, b"No users found.")
        else:
            self.cmdout(fd, b"Total: %d user%s in %d group%s" %
                        (users, b"s" if users > 1 else b"", ngroups, b"s" if ngroups > 1 else b""))

    def c_w(self, fd, f):
        if len(f) != 2:
            return
        a = f[1]
        w = lc(getword(a))
        flag = {b"-g": "g", b"-s": "s"}.get(w)
        if w == b"?":
            self.cmdout(fd, b"Usage: /w {-g | -s} {groupname}")
            return
        arg = getword(get_tail(a)) if flag else getword(a)
        if not arg:
            self.who_all(fd, flag)
            return
        name = arg[:MAX_GROUPLEN]
        u = self.u[fd]
        if a[:1] == b"@":
            t = self.find_user(a[1:])
            tg = self.grp(self.u[t]) if t >= 0 else None
            if tg is None or (tg.vis == SUPERSECRET and u.nick != b"ADMIN"):
                self.error(fd, b"User not found.")
                if tg:
                    self.ev("who-at-hidden")
                return
            name = self.u[t].group
        if name == b".":
            name = u.group
        self.who_one(fd, flag, name)


class UserCmds:
    def c_m(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        who = getword(f[1])
        d = self.find_user(who)
        if d < 0:
            self.error(fd, who + b" not signed on.")
            return
        x = self.u[d]
        if u.awaymsg and d != self.NS:
            self.status(fd, b"Away", b"Your away is still set...")
        text = get_tail(f[1])
        self.ev("personal" if self.person(fd, d, text) else "personal-bounced")
        if u.echoback == 2:
            self.cmdout(fd, (b"<*to: " + x.nick + b"*> " + text)[:MAX_PKT_DATA - 1])
        self.away_handle(fd, d)

    def local(self, t):
        return _time.gmtime(t + self.zone[1])

    def clock(self):
        t = self.local(self.now)
        h = t.tm_hour
        return b"%d:%02d%s" % (h - 12 if h > 12 else 12 if h == 0 else h, t.tm_min, b"pm" if h > 11 else b"am")

    def away_handle(self, src, dest):
        x = self.u[dest]
        if x.awaymsg and (x.lastaway != src or self.now - x.lastawaytime > AWAY_NOSEND_TIME):
            x.lastaway = src
            x.lastawaytime = self.now
            self.status(src, b"Away", x.awaymsg)
            self.ev("away-sent")
            if x.echoback == 2:
                self.cmdout(dest, (b"<*to: " + self.u[src].nick + b"*> [=@" + self.clock() + b"=] " +
                                   x.awaymsg)[:MAX_PKT_DATA - 1])
        elif x.awaymsg:
            self.ev("away-suppressed")

    def c_beep(self, fd, f):
        if len(f) != 2:
            return
        who = getword(f[1])
        if not who:
            return
        d = self.find_user(who)
        if d < 0:
            self.error(fd, who + b" not signed on.")
            return
        u, x = self.u[fd], self.u[d]
        if x.nobeep:
            self.error(fd, b"User has nobeep enabled.")
            self.ev("nobeep")
            if x.nobeep == 2:
                self.status(d, b"No-Beep", u.nick + b" attempted (and failed) to beep you")
        else:
            self.raw(d, b"k" + u.nick)
            self.ev("beep")
        if u.echoback == 2:
            self.cmdout(fd, b"<*to: " + x.nick + b"*> [=Beep=]")
        self.away_handle(fd, d)

    def textfile(self, fd, name, missing):
        data = self.files.get(name)
        if data is None:
            self.error(fd, missing)
            return
        for line in data.split(b"\n")[:-1]:
            self.cmdout(fd, cstr(line)[:255])

    def c_s_help(self, fd, f):
        self.textfile(fd, "icbd_help", b"No help file found.")

    def toggle(self, fd, l, who, quiet, what, cat):
        if not l.present(who):
            if len(l) == l.max:
                self.error(fd, b"Max number of " + what[1] + b" reached.")
                return False
            l.put(who)
            if not quiet:
                self.status(fd, cat, who + b" added to " + what[0] + b" list.")
            return "added"
        l.delete(who)
        if not quiet:
            self.status(fd, cat, who + b" removed from " + what[0] + b" list.")
        return "removed"

    def c_hush(self, fd, f):
        u = self.u[fd]
        who = None
        fl = set()
        if len(f) >= 2:
            try:
                fl, who = flags(f[1], "qnspo", ("ns",))
            except Usage:
                self.error(fd, b"Usage: hush {-q} {-p} {-o} {-n nickname | -s address}")
                return
            who = uc(who)
        lists = ((u.pri_n, b"Personal-Nick-Hushed"), (u.pub_n, b"Open-Nick-Hushed"),
                 (u.pri_s, b"Personal-Site-Hushed"), (u.pub_s, b"Open-Site-Hushed"))
        if not who:
            if not any(len(l) for l, _ in lists):
                self.status(fd, b"Hush-List", b"Empty List")
            for l, t in lists:
                for x in l.l:
                    self.status(fd, t, x)
            return
        both = not fl & {"p", "o"}
        site = "s" in fl
        k = b"site" if site else b"nickname"
        self.ev("hush")
        if both or "p" in fl:
            if not self.toggle(fd, u.pri_s if site else u.pri_n, who, "q" in fl,
                               (k + b" personal hush", k + b" personal hushes"), b"Hush"):
                return
        if both or "o" in fl:
            self.toggle(fd, u.pub_s if site else u.pub_n, who, "q" in fl,
                        (k + b" open hush", k + b" open hushes"), b"Hush")

    c_shush = c_hush

    def c_notify(self, fd, f):
        u = self.u[fd]
        who = None
        fl = set()
        if len(f) >= 2:
            try:
                fl, who = flags(f[1], "qns", ("ns",))
            except Usage:
                self.error(fd, b"Usage: notify {-q} {-n nickname | -s address}")
                return
            who = uc(who)
        if not who:
            if not len(u.n_not) and not len(u.s_not):
                self.status(fd, b"Notify-List", b"Empty List")
            for x in u.n_not.l:
                self.status(fd, b"Notify-Nickname", x)
            for x in u.s_not.l:
                self.status(fd, b"Notify-Site", x)
            return
        self.ev("notify")
        if "s" in fl:
            self.toggle(fd, u.s_not, who, "q" in fl, (b"site notify", b"site notifies"), b"Notify")
        else:
            r = self.toggle(fd, u.n_not, who, "q" in fl, (b"nickname notify", b"nickname notifies"), b"Notify")
            if r == "added" and "q" not in fl:
                i = self.find_user(who)
                if i >= 0:
                    self.status(fd, b"Notify", self.u[i].nick + b" is logged in now.")

    def onoff(self, fd, f, attr, names, bad):
        if len(f) != 2:
            return
        v = {b"off": 0, b"on": 1, b"verbose": 2}.get(lc(f[1]))
        if v is None:
            self.error(fd, bad)
        else:
            setattr(self.u[fd], attr, v)
            self.status(fd, names[0], names[1 + v])

    def c_echoback(self, fd, f):
        self.onoff(fd, f, "echoback", (b"Echo", b"Echoback off", b"Echoback on", b"Echoback on verbose"),
                   b"Echoback: needs on/off/verbose")

    def c_nobeep(self, fd, f):
        self.onoff(fd, f, "nobeep", (b"No-Beep", b"No-Beep off", b"No-Beep on", b"No-Beep on (verbose)"),
                   b"No-Beep: needs off/on/verbose")

    def c_ping(self, fd, f):
        if len(f) != 2:
            return
        to = fd
        p = getword(f[1])
        if p:
            to = self.find_user(p)
            if to < 0:
                self.error(fd, b"Can't locate user (" + p + b")")
                return
        x = self.u[to]
        x.ping_time = self.now_us
        x.pong_req = fd
        self.ev("ping")
        if to != self.NS:
            self.raw(to, b"l" + self.u[fd].nick)

    def c_noaway(self, fd, f):
        if len(f) > 2:
            return
        u = self.u[fd]
        if not u.awaymsg:
            self.status(fd, b"Away", b"Away not set!")
            return
        u.awaymsg = b""
        u.lastaway = u.lastawaytime = 0
        self.status(fd, b"Away", b"Away message unset.")

    def c_away(self, fd, f):
        if len(f) > 2:
            return
        u = self.u[fd]
        text = f[1] if len(f) > 1 else b""
        if not text:
            if u.awaymsg:
                self.status(fd, b"Away", b"Away message is set to \"" + u.awaymsg + b"\"")
            else:
                self.status(fd, b"Away", b"Away message is not set.")
            return
        r, _ = filterfmt(text, 1)
        if r:
            self.error(fd, r)
            return
        u.awaymsg = (b"(%s@" + self.clock() + b") " + text)[:MAX_AWAY_LEN - 1]
        u.lastaway = u.lastawaytime = 0
        self.ev("away-set")
        self.status(fd, b"Away", b"Away message set to \"" + u.awaymsg + b"\"")

    def c_name(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        if not f[1]:
            self.error(fd, b"The nickname may not be null.")
            return
        new = filternick(f[1][:MAX_NICKLEN])
        if (self.find_user(new) >= 0 and not ieq(new, u.nick)) or (
                ieq(new, b"admin") and u.password != self.admin_pwd):
            self.error(fd, b"Nickname already in use.")
            self.ev("nick-in-use")
            return
        msg = u.nick + b" changed nickname to " + new
        self.status_group(1, 0, fd, b"Name", msg)
        self.db_signoff(u)
        u.nick = new
        self.ev("rename")
        self.status(fd, b"Name", msg)
        u.realname = b""
        ret = self.nick_known(u)
        if ret == 0:
            self.registered(fd)
        elif ret == -2:
            self.ask_password(fd)
        else:
            self.status(fd, b"No-Pass", b"To register your nickname type /m server p mypassword")
        self.talk_report(fd)

    def ask_password(self, fd):
        u = self.u[fd]
        self.status(fd, b"Register", b"Send password to authenticate your nickname.")
        j = 0
        for gi, g in self.groups():
            if ieq(g.missingmod, u.nick):
                self.status(fd, b"Mod", b"You are moderator of group " + g.name)
                j += 1
        if j:
            self.status(fd, b"Mod", b"You must register using /p <password> to regain mod of the above group" +
                        plural(j) + b".")

    def regain_mods(self, fd):
        u = self.u[fd]
        for gi, g in self.groups():
            if gi >= 1 and g.modtimeout > 0 and g.missingmod == u.nick:
                g.modtimeout = 0
                g.mod = fd
                g.missingmod = b""
                self.ev("mod-regained")
                for x in self.real():
                    if ieq(x.group, g.name) and x.fd != fd:
                        self.status(x.fd, b"Mod", u.nick + b" is the active moderator again.")
                self.status(fd, b"Mod", b"You are the moderator of group " + g.name)

    def report_msgs(self, fd):
        n = self.msg_count(self.u[fd].nick)
        if n > 0:
            self.status(fd, b"Message", b"You have 1 message" if n == 1 else b"You have %d messages" % n)

    def registered(self, fd):
        u = self.u[fd]
        u.realname = b"registered"
        self.ev("registered")
        self.status(fd, b"Register", b"Nick registered")
        self.db_signon(u)
        self.regain_mods(fd)
        self.report_msgs(fd)

    def c_brick(self, fd, f):
        u = self.u[fd]
        target = filternick(f[1][:MAX_NICKLEN]) if len(f) == 2 else b""
        t = self.find_user(target)
        if not target:
            b = u.bricks
            if b > 0:
                m = b"You have %d brick%s remaining." % (b, plural(b))
            elif b < 0:
                m = b"You owe %d bricks." % -b
            else:
                m = b"You have no bricks remaining."
            self.status(fd, b"Message", m)
            return
        u.bricks -= 1
        b = u.bricks
        self.ev("brick")
        if b < -5:
            self.error(fd, b"You are out of bricks.  Good bye.")
            self.status_group(1, 1, fd, b"DROP", b"out of bricks; dropped %s (%d)" % (u.nick, fd))
            u.kill += 1
        elif b < -4:
            self.status_group(1, 1, fd, b"FYI", u.nick + b" has fallen, and can't get up.")
            self.error(fd, b"You are out of bricks.  Please desist.")
        elif b < 0:
            self.error(fd, b"You are out of bricks.")
        elif t < 0 or ieq(target, b"server"):
            self.status_group(1, 1, fd, b"FYI", b"A brick flies off into the ether.")
        else:
            x = self.u[t]
            if x.bricks < 20 and t != fd:
                x.bricks += 1
            m = target + b" has been bricked."
            self.status_group(1, 1, fd, b"FYI", m)
            if not ieq(x.group, u.group):
                self.status_group(1, 1, t, b"FYI", m)


class DbCmds:
    """the user database and the commands of the automagical Server user"""

    def init_db(self):
        self.db = {}
        self.put(b"server", b"signon", self.stamp())

    def key(self, nick, attr):
        return lc(nick + b"." + attr)

    def get(self, nick, attr):
        return self.db.get(self.key(nick, attr))

    def put(self, nick, attr, val):
        self.db[self.key(nick, attr)] = cstr(val)

    def rm(self, nick, attr):
        self.db.pop(self.key(nick, attr), None)

    def stamp(self):
        t = self.local(self.now)
        return b"%2d-%s-%d %02d:%02d %s" % (t.tm_mday, b"Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[t.tm_mon - 1],
                                           t.tm_year, t.tm_hour, t.tm_min, self.zone[0])

    def db_signon(self, u):
        if u.reg:
            self.put(u.nick, b"signon", self.stamp())

    def db_signoff(self, u):
        if u.reg and self.get(u.nick, b"nick") is not None:
            self.put(u.nick, b"signoff", self.stamp())

    def home(self, u):
        return u.loginid + b"@" + u.nodeid

    def nick_known(self, u):
        h = self.get(u.nick, b"home")
        if h is None:
            return -1
        if not ieq(h, self.home(u)) or self.get(u.nick, b"secure") is not None:
            return -2
        return 0

    def msg_count(self, nick):
        v = self.get(nick, b"nummsg")
        if v is None:
            self.put(nick, b"nummsg", b"0")
            return 0
        return atoi(v)

    def check_auth(self, fd):
        u = self.u[fd]
        self.asked.add(u.nick)
        return ieq(u.nick, b"ADMIN") and ieq(u.password, self.admin_pwd)

    def valuser(self, nick, pw):
        return bool(pw) and self.get(nick, b"password") == pw[:MAX_PASSWDLEN]

    def nickwrite(self, fd, pw, verify=False):
        u = self.u[fd]
        if not pw:
            self.error(fd, b"Password cannot be null")
            return -1
        pw = pw[:MAX_PASSWDLEN]
        have = self.get(u.nick, b"password")
        if have is None:
            if verify:
                self.error(fd, b"[ERROR] Nick " + u.nick + b" not found")
                return -1
            self.put(u.nick, b"password", pw)
            self.put(u.nick, b"nick", u.nick)
            self.put(u.nick, b"home", self.home(u))
            self.status(fd, b"Register", b"Nick registered")
            u.realname = b"registered"
            self.db_signon(u)
            u.password = pw
            self.ev("nick-created")
            return 0
        if have != pw:
            self.error(fd, b"Authorization failure")
            u.realname = b""
            self.ev("auth-failure")
            return -1
        self.registered(fd)
        u.password = pw
        self.talk_report(fd, 1)
        self.ev("auth-ok")
        return 0

    def a_p(self, fd, a):
        self.nickwrite(fd, getword(a))

    def a_read(self, fd, a):
        u = self.u[fd]
        if not u.reg:
            self.error(fd, b"You must be registered to read any messages.")
            self.ev("read-unregistered")
            return
        n = atoi(self.get(u.nick, b"nummsg") or b"0")
        if n == 0:
            self.error(fd, b"No messages")
        for i in range(1, n + 1):
            h, f, m = (self.get(u.nick, b"%s%d" % (k, i)) for k in (b"header", b"from", b"message"))
            for k in (b"header", b"from", b"message"):
                self.rm(u.nick, b"%s%d" % (k, i))
            if h is not None:
                self.cmdout(fd, h)
            if m is not None:
                self.person_stored(fd, f[:MAX_NICKLEN] if f is not None else b"Server", m)
                self.ev("stored-read")
        self.put(u.nick, b"nummsg", b"0")

    def a_write(self, fd, a):
        u = self.u[fd]
        who, text = getword(a), get_tail(a)
        if not who or not text:
            self.cmdout(fd, b"Usage: write nickname message text")
            return
        if not u.reg:
            self.error(fd, b"You must be registered to write a message.")
            self.ev("write-unregistered")
            return
        if self.get(who, b"nick") is None:
            self.error(fd, who + b" is not registered")
            return
        n = atoi(self.get(who, b"nummsg") or b"0") + 1
        if n > MAX_WRITES:
            self.error(fd, b"User mailbox full")
            self.ev("mailbox-full")
            return
        self.put(who, b"header%d" % n, b"Message left at " + self.stamp() + b":")
        self.put(who, b"from%d" % n, u.nick)
        self.put(who, b"message%d" % n, filtertext(text, 4095))
        self.put(who, b"nummsg", b"%d" % n)
        self.ev("stored-write")
        self.status(fd, b"Message", b"Text saved to file")
        d = self.find_user(who)
        if d > 0:
            self.status(fd, b"Warning", self.u[d].nick + b" is logged in now.")
            self.status(d, b"Message", b"You have %d message%s" % (n, plural(n)))

    def whois(self, fd, nick):
        if not nick:
            self.cmdout(fd, b"Usage: whois nickname")
            return
        if len(nick) > MAX_NICKLEN:
            self.error(fd, b"nickname too long")
            return
        g = lambda k: self.get(nick, k)
        home = g(b"home")
        if home is None:
            self.error(fd, nick + b" is not in the database.")
            return
        self.ev("whois")
        pad = lambda s: s.ljust(36)
        self.cmdout(fd, pad(b"Nickname:     " + (g(b"nick") or b"")[:MAX_NICKLEN]) + b"Address:   " + home)

        def val(k, none):
            v = g(k)
            return none if v is None else v
        self.cmdout(fd, pad(b"Phone Number: " + val(b"phone", b"(None)")) + b"Real Name: " + val(b"realname", b"(None)"))
        self.cmdout(fd, pad(b"Last signon:  " + val(b"signon", b"(unknown)")) + b"Last signoff:  " + val(b"signoff", b"(unknown)"))
        if g(b"email") is not None:
            self.cmdout(fd, b"E-mail addr:  " + g(b"email"))
        if g(b"www") is not None:
            self.cmdout(fd, b"WWW:  " + g(b"www"))
        if g(b"addr") is not None:
            self.cmdout(fd, b"Street Address:")
            for part in g(b"addr").split(b"|"):
                self.cmdout(fd, b"  " + part)
        t = g(b"text")
        if t is not None:
            self.wrap_text(fd, t[:254])

    def wrap_text(self, fd, t):
        W = 80 - MAX_NICKLEN - 5 - 1
        s = p = lastw = count = 0
        last = b""
        while p < len(t):
            if t[p] == 0x0A:
                last = b"Text: " + t[s:p]
                self.cmdout(fd, last)
                p += 1
                count = 0
                lastw = s = p
                continue
            if t[p] == 0x20:
                lastw = p
            if count == W:
                if p - lastw > 40:
                    last = b"Text: " + t[s:p - 1] + b"-"
                    p -= 1
                else:
                    last = b"Text: " + t[s:lastw]
                    p = lastw + 1
                self.cmdout(fd, last)
                lastw = s = p
                count = 0
            else:
                count += 1
                p += 1
        if count > 0:
            self.cmdout(fd, b"Text: " + t[s:])

    def a_whois(self, fd, a):
        self.whois(fd, getword(a))

    def a_info(self, fd, a):
        self.whois(fd, b"server")

    def chinfo(self, fd, attr, a, mx, what, usage):
        u = self.u[fd]
        if not a:
            self.cmdout(fd, usage)
            return
        if not u.reg:
            self.error(fd, b"Setting your name requites that you be registered.")
            self.ev("setinfo-unregistered")
            return
        if len(a) > mx:
            a = a[:mx]
            self.error(fd, what + b" truncated to %d characters" % mx)
        self.put(u.nick, attr, a)
        self.ev("setinfo")
        self.cmdout(fd, what + b" set to '" + a[:160] + b"'")

    def a_rname(self, fd, a):
        self.chinfo(fd, b"realname", a, 25, b"Real Name", b"Usage: rname Real Name")

    def a_text(self, fd, a):
        self.chinfo(fd, b"text", a, 200, b"Message text", b"Usage: text Message Text")

    def a_addr(self, fd, a):
        self.chinfo(fd, b"addr", a, 79, b"Address",
                    b"Usage: addr Address Line 1 | Address Line 2 | Address Line 3")

    def a_phone(self, fd, a):
        self.chinfo(fd, b"phone", a, 14, b"Phone Number", b"Usage: phone 1-800-555-1212")

    def a_www(self, fd, a):
        self.chinfo(fd, b"www", a, 80, b"WWW", b"Usage: www URL")

    def a_email(self, fd, a):
        self.chinfo(fd, b"email", a, 60, b"E-Mail", b"Usage: email e-mail address")

    ATTRS = b"secure realname email signon signoff nick password phone text home addr nummsg www".split()

    def a_delete(self, fd, a):
        u = self.u[fd]
        pw = getword(a)[:MAX_PASSWDLEN]
        if not pw:
            self.cmdout(fd, b"Usage: delete password")
            return
        if not u.reg:
            self.error(fd, b"You must be registered to delete your entry.")
            self.ev("delete-unregistered")
            return
        have = self.get(u.nick, b"password")
        if have is None:
            self.error(fd, b"You don't have a password.")
            return
        if have != pw:
            self.error(fd, b"Password incorrect.")
            self.ev("delete-refused")
            return
        for k in self.ATTRS:
            self.rm(u.nick, k)
        for i in range(1, MAX_WRITES + 1):
            for k in (b"header", b"message", b"from"):
                self.rm(u.nick, b"%s%d" % (k, i))
        self.ev("nick-deleted")
        self.cmdout(fd, b"Record Deleted")

    def a_cp(self, fd, a):
        u = self.u[fd]
        old, new = getword(a)[:MAX_PASSWDLEN], getword(get_tail(a))[:MAX_PASSWDLEN]
        if self.get(u.nick, b"password") != old or self.get(u.nick, b"password") is None:
            self.error(fd, b"Authorization failure")
            self.ev("cp-refused")
        elif not new:
            self.error(fd, b"Missing paramater")
        else:
            self.put(u.nick, b"password", new)
            self.status(fd, b"Pass", b"Password changed")
            self.put(u.nick, b"home", self.home(u))
            self.ev("cp")

    def setsecure(self, fd, on):
        u = self.u[fd]
        if not u.reg:
            self.error(fd, b"You must be registered to change your security.")
            return
        if on:
            self.put(u.nick, b"secure", b"SECURED")
            self.cmdout(fd, b"Security set to password required.")
        else:
            self.rm(u.nick, b"secure")
            self.cmdout(fd, b"Security set to automatic.")
        self.ev("secure")

    def a_secure(self, fd, a):
        self.setsecure(fd, True)

    def a_nosecure(self, fd, a):
        self.setsecure(fd, False)

    HELP = [
        ("Command <argument(s)>", "What it does"), ("---------------------", "------------"),
        ("whois <nick>", "returns info if available"), ("p <passwd>", "registers current user info"),
        ("delete <password>", "deletes your info from the server db"),
        ("cp <oldpassword> <newpasswd>", "changes password"), ("rname", "sets your real name"),
        ("phone", "sets your phone number"), ("addr", "sets your street address"),
        ("email", "sets your e-mail address"), ("text", "sets your text message"),
        ("www", "sets your WWW home page"), ("read", "reads your server messages"),
        ("write <nick>", "send someone a server message"),
        ("secure", "always requires a password to register"),
        ("nosecure", "auto-validates based on username/hostname"),
        ("info", "gives more info on Server"), ("help", "lists this table"), ("?", "shows usage")]

    def a_help(self, fd, a):
        for x, y in self.HELP:
            self.cmdout(fd, ("%-32s%s" % (x, y)).encode())
        self.cmdout(fd, b"See also /s_help")

    def a_usage(self, fd, a):
        self.person(self.NS, fd, b"usage: /m server {whois | p | cp | delete | rname | email | phone | addr | text | "
                    b"read | write | www | info | secure | nosecure | help | ?}")

    AUTO = ("read whois p rname write text addr phone delete info help cp email secure nosecure www").split()

    def auto(self, fd, f):
        # (the word is looked up again without what follows a blank)
        w = lc(getword(f[0])).decode("latin1")
        a = f[1] if len(f) > 1 else b""
        if w in self.AUTO:
            getattr(self, "a_" + w)(fd, a)
        else:
            self.a_usage(fd, a)
        self.u[self.NS].t_recv = self.now


class ServerCmds:
    """login, command dispatch, administration and information"""
    BRICK = False
    VERSION = b"ICB Server v1.3.0"
    seq = 0
    log_level = 0
    log_top = 0

    COMMANDS = ("drop shutdown wall beep cancel g invite pass boot status topic motd m echoback name v w whereis restart "
                "news hush shush s_help exclude shuttime notify talk ping nobeep away noaway log stats brick").split()

    def cmdmsg(self, fd, text):
        u = self.u[fd]
        if u.login < LOGIN_COMPLETE:
            self.ev("cmd-before-login")
            self.log(3, b"%d: cannot issue command until logged in (%s)" % (fd, text))
            return
        u.t_recv = self.now
        f = split(text)
        w = lc(f[0]).decode("latin1")
        a = f[1] if len(f) > 1 else b""
        self.log(4, b"[COMMAND] %d: %s %s" % (fd, f[0], getword(a) if f[0] == b"m" else a))
        if w in self.COMMANDS and (w != "brick" or self.BRICK):
            getattr(self, "c_" + w)(fd, f)
        elif w in self.AUTO or w == "?":
            self.auto(fd, f)
        else:
            self.status(fd, b"Server", b"Unknown command")
            self.log(3, b"%d: Invalid command \"%s\"" % (fd, f[0]))

    def perms_of(self, u, loginid):
        for line in self.files.get("icbd.perms", b"").splitlines(True):
            if line[:1] in (b"\n", b"\t", b"#", b""):
                continue
            w = line.split()
            if len(w) < 4:
                continue
            t, a, b_, p = w[:4]
            if ieq(t, b"user"):
                hit = ieq(a, loginid) and ieq(b_, u.nodeid)
            elif ieq(t, b"mask"):
                ip = [int(x) for x in u.ip.split(b":")[-1].split(b".")]     # of IPv6 clients none applies
                net = [int(x) for x in a.split(b".")]
                mask = [int(x) for x in b_.split(b".")]
                hit = len(ip) == 4 and all(i & m == n for i, m, n in zip(ip, mask, net))
            else:
                hit = False
            if hit:
                return set(lc(x) for x in p.split(b"|"))
        return set()

    def loginmsg(self, fd, text):
        u = self.u[fd]
        if u.login > LOGIN_FALSE:
            self.error(fd, b"Already logged in.")
            return 1
        f = split(text)
        if len(f) < 4:
            self.ev("login-short")
            return -1
        group = (f[2] or b"1")[:MAX_NICKLEN + 3]
        kind = lc(f[3])
        if kind == b"w":
            self.ev("login-who")
            self.log(3, b"[WHO] %d: %s@%s" % (fd, f[0], u.nodeid))
            self.c_w(fd, [b"w", b""])
            return -1
        if kind == b"wg":
            self.ev("login-who")
            self.log(3, b"[WHO] %d: %s@%s" % (fd, f[0], u.nodeid))
            self.c_w(fd, [b"w", f[2]])
            return -1
        if kind != b"login":
            self.error(fd, b"Unknown login type \"" + f[3] + b"\"")
            return -1
        nick = filternick(f[1])
        loginid = f[0]

        def refuse(msg, tag):
            self.error(fd, msg)
            self.ev("login-refused-" + tag)
            return -1
        if self.find_user(nick) >= 0:
            return refuse(b"Nickname already in use.", "nick")
        if not 1 <= len(nick) <= MAX_NICKLEN:
            return refuse(b"Nickname must be between 1 and %d characters." % MAX_NICKLEN, "nicklen")
        if not 1 <= len(loginid) <= MAX_IDLEN:
            return refuse(b"Login id must be between 1 and %d characters." % MAX_IDLEN, "idlen")
        if not all(c < 128 and chr(c).isalnum() for c in loginid):
            return refuse(b"Login id must contain only alphanumeric characters.", "id")
        perms = self.perms_of(u, loginid)
        if b"perm_deny" in perms:
            self.log(3, b"Login denied.")
            return refuse(b"Login denied.", "perms")
        if b"perm_slowmsgs" in perms:
            self.status(fd, b"Permissions", b"slowmsgs")
        addr = uc(loginid + b"@" + u.nodeid)
        deny = self.files.get("icbd.deny")
        if deny is not None:
            word = b""
            i = 0
            while i < len(deny):
                c = deny[i:i + 1]
                i += 1
                if c.isspace():
                    if wildmat(addr, uc(word)):
                        self.error(fd, b"Login refused for " + addr)
                        self.log(3, b"Login refused for " + addr)
                        self.error(fd, b"Reason: " + deny[i:].split(b"\n")[0][:254])
                        self.ev("login-refused-deny")
                        return -1
                    word = b""
                elif len(word) < 254:
                    word += c
        u.loginid, u.nick = loginid, nick
        u.password = (f[4] if len(f) > 4 else b"")[:MAX_PASSWDLEN]
        u.slow = b"perm_slowmsgs" in perms
        self.log(3, b"[LOGIN] %d: %s@%s" % (fd, loginid, u.nodeid))
        if ieq(nick, b"admin"):
            self.log_auth(fd)
        if ieq(nick, b"admin") and not self.check_auth(fd):
            u.nick = b""
            return refuse(b"Nickname already in use.", "admin")
        self.raw(fd, b"a")
        self.c_motd(fd, [b"", b""])
        if group[:1] == b"@":
            t = self.find_user(group[1:])
            g = self.grp(self.u[t]) if t >= 0 else None
            if g is None or (g.vis != VISIBLE and u.nick != b"ADMIN"):
                u.nick = b""
                return refuse(b"User not found or is in a secret or invisible group.", "at")
            group = self.u[t].group
        u.login = LOGIN_PENDING
        u.t_on = u.t_recv = self.now
        u.lists()
        self.cmdout(fd, b"Welcome to ICB " + u.nick)
        ret = self.nick_known(u)
        if ret == -2:
            if u.password and self.nickwrite(fd, u.password, True) == 0:
                ret = 0
            if ret != 0:
                self.ask_password(fd)
        if ret == 0:
            if u.realname != b"registered":
                self.ev("auto-registered")
                self.registered(fd)
        elif ret != -2:
            self.status(fd, b"No-Pass", b"Your nickname does not have a password.")
            self.status(fd, b"No-Pass", b"For help type /m server ?")
        for gi, g in self.groups():
            if self.invited(u, g):
                self.cmdout(fd, b"Invited to: " + g.name)
        if u.realname != b"registered":
            self.talk_report(fd)
        if self.change(fd, group, True) < 0:
            self.ev("login-refused-group")
            return -1
        u.login = LOGIN_COMPLETE
        self.stats["signons"] += 1
        self.ev("login")
        for x in self.slots():
            if x.fd != fd and x.login >= LOGIN_COMPLETE and (x.n_not.match(uc(u.nick)) or x.s_not.match(u.addr)):
                if self.grp(u).vis != SUPERSECRET:
                    self.status(x.fd, b"Notify-On", u.nick + b" (" + u.addr + b") has just signed on")
                    self.ev("notify-on")
        return 0

    # -- administration
    def denied(self, fd):
        self.log_auth(fd)
        if self.check_auth(fd):
            return False
        self.error(fd, b"You are not authorized to do this.")
        self.ev("admin-denied")
        return True

    def c_drop(self, fd, f):
        if len(f) != 2:
            return
        u = self.u[fd]
        v = self.find_user(getword(f[1]))
        if v < 0:
            self.error(fd, b"User not found.")
            return
        self.log_auth(fd)
        if self.check_auth(fd):
            if v != self.NS:
                self.u[v].dropped = True
            self.ev("drop-admin")
        elif self.valuser(self.u[v].nick, getword(get_tail(f[1]))):
            self.status(v, b"Drop", b"You have been disconnected by " + u.nick)
            if v != self.NS:
                self.u[v].kill += 1
            self.log(3, b"[DROP] %s (%d) dropped %s (%d)" % (u.nick, fd, self.u[v].nick, v))
            self.ev("drop-password")
        else:
            self.error(fd, b"Authentication failure.")
            self.ev("drop-denied")

    def everyone(self, cat, msg):
        for x in self.real():
            if x.login > LOGIN_FALSE:
                self.important(x.fd, cat, msg)

    def c_wall(self, fd, f):
        if not self.denied(fd) and len(f) == 2:
            self.everyone(b"WALL", f[1])
            self.ev("wall")

    def c_shutdown(self, fd, f):
        if self.denied(fd) or len(f) != 2:
            return
        m = max(-2**31, min(2**31, int_prefix(f[1])))
        self.everyone(b"Shutdown", b"Server going down in %d minute(s)!" % m)
        self.time_to_die = self.now + 60 * m
        self.shutdown_notify = 1 if m < 300 else 0
        self.ev("shutdown")

    def c_restart(self, fd, f):
        if self.denied(fd):
            return
        raise NotImplementedError

    def c_log(self, fd, f):
        if len(f) < 2:
            self.cmdout(fd, b"wrong number of parz")
            return
        if self.denied(fd):
            return
        if f[1]:
            old, self.log_level = self.log_level, max(0, atoi(getword(f[1])))
            if self.log_level == 0 and old > 0:
                self.log_open = False
            elif self.log_level > 0:
                self.log_open = True
            self.log_top = max(self.log_top, self.log_level)
            self.log(-1, b"Log level changed to %d" % self.log_level)
        self.cmdout(fd, b"The log level is %d" % self.log_level)

    # -- information
    def c_whereis(self, fd, f):
        if len(f) != 2:
            return
        name = getword(f[1])[:19]
        t = self.find_user(name) if name else self.u[fd].lpriv
        if t < 0:
            self.cmdout(fd, b"Nickname not found.")
            return
        x = self.u[t]
        d = self.now - x.t_recv
        idle = b"%ds" % d if d < 60 else b"%dm" % (d // 60) if d < 3600 else b"%dh" % (d // 3600) if d < 86400 \
            else b"%dd" % (d // 86400)
        self.cmdout(fd, b"%-14s %s@%s (%s) %s%s" % (x.nick, x.loginid, x.nodeid, x.ip if t != self.NS else b"(unknown)",
                                                    idle, b" (aw)" if x.awaymsg else b""))

    def c_motd(self, fd, f):
        data = self.files.get("motd")
        if data is None:
            self.error(fd, b"No MOTD file found.")
            return
        line = b""
        i = 0
        while i < len(data):
            c = data[i:i + 1]
            i += 1
            if c == b"%":
                c = data[i:i + 1]
                i += 1
                if c == b"U":
                    line += self.get(b"server", b"signon") or b""
                else:
                    line += c
            elif c == b"\n":
                self.cmdout(fd, line)
                line = b""
            else:
                line += c
            line = line[:255]

    RULE = b"--------------------------------------"

    def c_news(self, fd, f):
        a = f[1] if len(f) > 1 else b""

        def show(name):
            for line in self.files[name].split(b"\n")[:-1]:
                self.cmdout(fd, line[:254])
        if not a or a == b"(null)":
            first = True
            for i in range(1, 10):
                if "news.%d" % i in self.files:
                    if first:
                        self.cmdout(fd, self.RULE)
                        first = False
                    show("news.%d" % i)
                    self.cmdout(fd, self.RULE)
            if first:
                self.status(fd, b"News", b"No news.")
            return
        name = "news." + a.decode("latin1")
        if name in self.files:
            self.cmdout(fd, self.RULE)
            show(name)
            self.cmdout(fd, self.RULE)
        else:
            self.error(fd, b"Entry not found.")

    def c_shuttime(self, fd, f):
        if len(f) != 2:
            return
        if self.time_to_die < 0:
            self.status(fd, b"Shutdown", b"No shutdown time scheduled.")
            return
        d = self.time_to_die - self.now
        if d >= 3600:
            m = b"%d hour(s), %d minute(s) left until scheduled shutdown." % (d // 3600, d % 3600 // 60)
        elif d > 60:
            m = b"%d minute(s) left until scheduled shutdown." % (d // 60)
        else:
            m = b"%d second(s) left until scheduled shutdown!" % d
        self.status(fd, b"Shutdown", m)

    def limits(self):
        return b"Max Users: %d Max Groups: %d" % (self.NS, MAX_GROUPS)

    def c_v(self, fd, f):
        if len(f) == 2:
            self.cmdout(fd, self.VERSION)
            self.cmdout(fd, b"Proto Level: 1 " + self.limits())

    def c_stats(self, fd, f):
        if len(f) == 2 and f[1] == b"reset":
            if self.denied(fd):
                return
            self.stats = {k: 0 for k in self.stats}
            self.start = self.now
            self.status(fd, b"Stats", b"Stats have been reset.")
            return
        s = self.stats
        n = lambda k, w, p=b"s": b"%d %s%s" % (s[k], w, b"" if s[k] == 1 else p)
        users = [x for x in self.real() if x.login > LOGIN_FALSE]
        away = sum(1 for x in users if x.awaymsg)
        groups = sum(1 for gi, g in self.groups() if g.name != b"ICB" or self.count(b"ICB") > 1)
        w = lambda k, t: b"%d %s%s" % (k, t, b"" if k == 1 else b"s")
        for t in (b"Server Settings:", b"  " + self.VERSION + b", Protocol Level 1", b"  " + self.limits(), b"Server Stats:",
                  b"  Started: " + _time.asctime(self.local(self.start)).encode(),
                  b"  " + n("signons", b"signon") + b", " + n("boots", b"boot") + b", " + n("drops", b"drop"),
                  b"  " + n("idleboots", b"idleboot") + b", " + n("idlemods", b"idlemod pass", b"es"),
                  b"  " + w(len(users), b"user") + b" in " + w(groups, b"group") + b" (" + w(away, b"away user") + b")"):
            self.cmdout(fd, t)


def int_prefix(s):
    import re
    m = re.match(rb"[ \t\n\v\f\r]*([+-]?[0-9]+)", s)
    return int(m.group(1)) if m else 0


class Model(GroupCmds, UserCmds, DbCmds, ServerCmds, Core):
    pass
