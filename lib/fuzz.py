"""Hostile traffic for a live server: commands with nasty arguments, mutated and
random packets, odd data files.  Nothing is compared; sanitizers, the barrier
and a final well-behaved client judge."""
import random, struct
import icb
from icb import frame

CMDS = ("? away beep boot brick cancel cp drop delete delmsg echoback exclude g help hush shush info invite log m motd name news noaway nobeep nosecure notify p pass ping read "
        "restart rname secure shutdown shuttime status s_help s_status stats talk text topic addr phone www email usage v w wall whereis whois write nosuch").split()
NICKS = ["alice", "bob", "carol", "Server", "admin", "abcdefghijkl", "x", "al%s", "dave"]
GROUPS = ["1", "dev", "ops", "ICB", "12345678", "~IDLE~", "s1"]
STATUS = ("r m c p i s v q n l # b im idlebootmsg name ?").split()


def db_file(entries):
    out = b"IDB\1" + struct.pack("<I", len(entries))
    for k, v in entries.items():
        out += struct.pack("<II", len(k), len(v)) + k + v
    return out


class Fuzz:
    def __init__(self, rng, tls=False, admin=True, crowd=False):
        self.r, self.tls, self.admin = rng, tls, admin
        self.most, self.pconn, self.pclose = (40, .5, .12) if crowd else (7, .06, .04)
        self.n = 0
        self.open = []

    # -- pieces
    def junk(self, n):
        r = self.r
        return bytes(r.choice(b"ab %sn\x01\x01\x02\x00\x05\xff\xc3\xa9,@./-*[]\\?|\r\n0129") for _ in range(n))

    def size(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 7, 8, 9, 11, 12, 13, 14, 25, 31, 32, 33, 63, 64, 65, 66, 79, 80, 81, 100, 150, 200, 217, 218, 219, 220, 225, 228, 230, 231, 232, 233, 240,
                         245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255])

    def text(self):
        r = self.r
        n = self.size()
        k = r.randrange(14)
        if k == 0:
            return b"%n" * (n // 2)
        if k == 1:
            return b"%s" * (n // 2)
        if k == 2:
            return self.junk(n)
        if k == 3:
            return (b"word " * 60)[:n]
        if k == 4:
            return bytes(r.randrange(256) for _ in range(n))
        if k == 5:
            return b"\xe2\x82" * (n // 2)
        if k == 6:
            return r.choice([b"%s bye", b"%5$s", b"%999999d", b"%.99999s", b"%*d", b"%%", b"%"])
        if k == 7:
            return b" " * n
        if k == 8:
            return (b"aaaa|" * 60)[:n]
        if k == 9:
            return (b"\xe2\x82\xac\xc3\xa9" * 60)[:n]
        return bytes([r.choice(b"aZ9.*")]) * n

    def nick(self):
        return self.r.choice(NICKS).encode() if self.r.random() < .85 else self.text()[:self.r.choice([11, 12, 13, 30, 250])]

    def group(self):
        return self.r.choice(GROUPS).encode() if self.r.random() < .8 else self.r.choice([b"@" + self.nick(), b".." + b"x", b".", b"@", self.text()[:20], b"." + self.text()[:250]])

    def num(self):
        return self.r.choice([b"0", b"1", b"2", b"60", b"99999", b"-1", b"2147483647", b"2147483648", b"4294967296", b"-2147483648", b"71582789", b"99999999999999999999", b"zz", b""])

    def addr(self):
        return self.r.choice([b"alice@localhost", b"*@*", b"*@h2.test", b"[a-z", b"[", b"\\", b"*" * 40, b"?" * 60, b"*a*b*c*d*@*e*f", self.text(), b"@", b""])

    def arg(self, c):
        r = self.r
        k = r.random()
        if k < .12:
            return self.text()
        if k < .16:
            return b""
        fl = b"".join(r.choice([b"-q ", b"-s ", b"-n ", b"-r ", b"-d ", b"-a ", b"-p ", b"-o ", b"-g ", b"-", b"-z ", b"-qr "]) for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
        if c in ("m", "write", "exclude", "boot", "drop", "p", "cp", "delete"):
            a = (self.nick() if c not in ("p", "cp", "delete") else r.choice([b"pw", b"secret", self.text()])) + r.choice([b" ", b"", b"  ", b","]) + self.text()
            if c == "m" and r.random() < .12:
                a = b"server " + r.choice(CMDS).encode() + b" " + self.text()
            return a
        if c in ("invite", "cancel", "hush", "shush", "notify", "talk"):
            return fl + r.choice([self.nick(), self.addr(), self.nick()])
        if c == "status":
            out = b""
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                s = r.choice(STATUS).encode()
                out += s + b" "
                if s in (b"#", b"b", b"im"):
                    out += self.num() + b" "
                elif s in (b"name",):
                    out += self.group() + b" "
                elif s == b"idlebootmsg":
                    out += self.text() + b" "
            return out
        if c == "w":
            return r.choice([b"", b"-g ", b"-s ", b"-gs ", b"-"]) + r.choice([b"", self.group(), b".", b"@" + self.nick()])
        if c in ("g",):
            return self.group()
        if c in ("log", "shutdown"):
            return self.num()
        if c in ("echoback", "nobeep"):
            return r.choice([b"on", b"off", b"verbose", self.text()])
        if c == "news":
            return r.choice([self.num(), b"../motd", self.text(), b"faq", b"1/../2"])
        if c in ("topic", "away", "wall", "rname", "text", "addr", "phone", "www", "email", "topic"):
            return self.text()
        return r.choice([self.nick(), self.text(), b"", self.nick() + b" " + self.text()])

    def packet(self, loggedin=True):
        """-> (bytes on the wire, what it is)"""
        r = self.r
        k = r.random()
        if k < .68 and loggedin:
            c = r.choice(CMDS)
            while (c in ("shutdown", "restart")):
                c = r.choice(CMDS)
            cc = c.encode() if r.random() < .9 else c.upper().encode()
            if r.random() < .03:
                cc += self.text()
            body = b"h" + cc + b"\1" + self.arg(c)
            if r.random() < .05:
                body += b"\1" + self.text()[:30]
            what = "cmd:" + c
        elif k < .78:
            f = [r.choice([b"alice", b"u1", b"root", self.text()[:40]]), self.nick(), self.group(), r.choice([b"login", b"login", b"w", self.text()[:10]]), r.choice([b"", b"pw", b"secret",
                 self.text()[:60]]), r.choice([b"", b"1", self.text()[:9]]), b""]
            if self.admin and r.random() < .15:
                f[1], f[4] = b"admin", b"ci_test_pwd"
            body = b"a" + b"\1".join(f[:r.choice([0, 1, 2, 3, 4, 5, 5, 5, 5, 6, 7])])
            what = "login"
        elif k < .86:
            body, what = b"b" + self.text(), "open"
            if r.random() < .1:
                body += b"\1" + self.text()
        elif k < .90:
            body, what = r.choice([b"m" + self.text()[:40], b"n", b"l" + self.text()[:40]]), "other"
        else:
            body, what = bytes([r.choice(b"abcdefghijklmnopz\0\1\xff")]) + self.text(), "random"
        if r.random() < .8:
            body = body[:254] + b"\0"
        body = body[:255] or b"\0"
        if r.random() < .15:
            # mutate
            b = bytearray(body)
            for _ in range(r.choice([1, 1, 2, 4])):
                p = r.randrange(len(b))
                x = r.randrange(5)
                if x == 0:
                    b[p] = r.randrange(256)
                elif x == 1:
                    b[p] = r.choice(b"\0\1\2%, -\x7f\x80\xff")
                elif x == 2:
                    b[p:p] = self.text()[:r.choice([1, 8, 60])]
                elif x == 3 and len(b) > 1:
                    del b[p:p + r.choice([1, 3, 20])]
                else:
                    b[p:p] = b"\1"
                if not b:
                    b = bytearray(b"h")
            body = bytes(b)[:255]
            what += "*"
        # never restart or shut down: that is another matter
        low = body.lower()
        if b"restart" in low or b"shutdown" in low:
            body = b"n\0"
        return bytes([len(body)]) + body, what

    # -- operations
    def next(self):
        r = self.r
        if len(self.open) < 2 or (len(self.open) < self.most and r.random() < self.pconn):
            i = self.n
            self.n += 1
            self.open.append(i)
            return ["conn", r.choice([1, 2, 3, 30, 77]), self.tls and r.random() < .5]
        i = r.choice(self.open)
        k = r.random()
        if k < self.pclose:
            self.open.remove(i)
            return r.choice([["close", i, False], ["close", i, True], ["half", i]])
        if k < self.pclose + .06:
            return ["adv", r.choice([.2, 1, 2, 61, 600, 3601, 4000])]
        if k < .25:
            n = sorted(set(NICKS))
            return ["send", i, frame("a", r.choice(["alice", "bob", "u1"]), r.choice(NICKS), r.choice(GROUPS), "login", r.choice(["", "pw", "ci_test_pwd"])).hex(), "login+"]
        if k < .29:
            return ["send", i, frame("h", "p", r.choice(["pw", "secret"])).hex(), "cmd:p"]
        if k < .34:
            # many packets in one go
            out, w = b"", []
            for _ in range(r.choice([2, 5, 12])):
                p, x = self.packet()
                out += p
                w.append(x)
            return ["send", i, out.hex(), "many"]
        p, x = self.packet()
        if k < .37:
            c = r.randrange(len(p) + 1)
            return ["send", i, p[:c].hex(), "cut"]
        if k < .39:
            return ["send", i, self.junk(r.choice([1, 5, 100, 600])).hex(), "junk"]
        return ["send", i, p.hex(), x]


def hostile_db(r):
    f = Fuzz(r)
    e = {}
    attrs = "password nick home nummsg secure signon signoff realname phone email www addr text header1 from1 message1 header2 from2 message2 header25 zz".split()
    for n in ["alice", "bob", "carol", "server", "dave", "x", "abcdefghijkl", ""]:
        if r.random() < .75:
            full = r.random() < .6
            for a in attrs:
                if full or r.random() < .5:
                    v = r.choice([b"", b"x", f.num(), f.text(), f.text(), f.text() * r.choice([2, 5, 40]), b"|" * 30, b"a@b", b"pw", b"%s%n", b"\0\0", b"SECURED"])
                    if a == "password" and r.random() < .6:
                        v = b"pw"
                    if a == "nick" and r.random() < .5:
                        v = n.encode()
                    if a == "nummsg" and r.random() < .7:
                        v = r.choice([b"1", b"2", b"3", b"20", b"-5", b"2147483647", b"-2147483648", b"99999999999", b""])
                    e[("%s.%s" % (n, a)).encode()] = v
    d = db_file(e)
    k = r.random()
    if k < .3:
        d = d[:r.randrange(len(d) + 1)]
    elif k < .6:
        b = bytearray(d)
        for _ in range(r.choice([1, 3, 10])):
            b[r.randrange(len(b))] = r.randrange(256)
        d = bytes(b)
    return d


def hostile_files(r):
    f = Fuzz(r)
    files = {}
    if r.random() < .7:
        files["icbdb.db"] = hostile_db(r)
    def lines(n, sep=b"\n"):
        return sep.join(r.choice([f.text(), f.text() * r.choice([1, 4, 40]), b"", b"%U", b"%", b"%%U%", b"#", b"\t", b"*@* x",
                                 b"x" * r.randrange(225, 260) + r.choice([b"%U", b"%U%U", b"%%", b"%U%", b"\xe9", b""])]) for _ in range(r.choice(n))) + r.choice([b"", b"\n", b"%"])
    if r.random() < .7:
        files["motd"] = lines([0, 1, 3, 20])
    if r.random() < .5:
        files["icbd_help"] = lines([0, 1, 3, 20])
    for n in ("1", "2", "faq"):
        if r.random() < .4:
            files["news." + n] = lines([0, 1, 3, 20])
    if r.random() < .4:
        files["icbd.deny"] = b"\n".join(r.choice([b"bob@* no", b"[a-z", b"[", b"*@[", b"\\", b"x" * 3000, b"nobody@* " + f.text() * 20, f.text() * 9, b"", b"*@h3.test " + f.text() * 3])
                                       for _ in range(r.choice([1, 3, 9]))) + r.choice([b"", b"\n"])
    if r.random() < .4:
        files["icbd.perms"] = b"\n".join(r.choice([b"user bob h2.test |", b"mask zz zz |||", b"user", b"user a", b"user a b", b"mask 127.0.0.3 255.255.255.255 PERM_DENY|" + f.text(),
                                                  b"user alice localhost |", b"mask 0.0.0.0 0.0.0.0 |", b" \t ", f.text() * 40, b"user carol localhost PERM_SLOWMSGS", b"x" * 9000]) for _ in
                                        range(r.choice([1, 3, 9]))) + r.choice([b"", b"\n"])
    return files
