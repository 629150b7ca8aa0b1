"""Random but well-aimed operations for World: what to do next is chosen from a
weighted table, and the parties and arguments from what exists right now."""
import random
from icb import frame
from model import AWAY_NOSEND_TIME, LOGIN_COMPLETE, LOGIN_FALSE, RESTRICTED, CONTROLLED, lc, uc

NICKS = ["alice", "Bob", "carol", "dave", "eve", "Mallory", "x", "abcdefghijkl", "ABCDEFGHIJKLMNO", "al", "bo_b", "Alice2", "bobby", ",ab"]
IDS = ["alice", "bob", "carol", "u1", "root", "abcdefghijkl", "B0B", "bobby"]
GROUPS = ["dev", "Lobby", "ops", "12345678", "123456789", "x", "Dev2", "s1", "~IDLE~", "~BOOT~"]
PWDS = ["pw", "secret", "hunter2", "PW", "abcdefghijkl", "abcdefghijklmnop"]
CROWD = .1     # share of scenarios with many bystanders
ADMIN_PW = "ci_test_pwd"
WORDS = ["hello", "hi there", "a", "the quick brown fox", "%s", "%n%n%s%d", "100%", "100%%", "x y  z", " lead", "trail ", "",
         "\x02bold\x03", "caf\xe9", "\xff\xfe", "tab\there", "a,b|c", "-q", "@alice", "new\nline", "\r\x1b[31mred", "\x7f", "*", "[a-z",
         "\\", "?", "'\"`$(id)"]


def longtext(rng):
    n = rng.choice([74, 75, 76, 79, 100, 150, 200, 230, 231, 232, 233, 234, 238, 239, 240, 241, 242, 245, 248, 249, 250])
    s = rng.choice(["x" * n, ("word " * 60)[:n], ("abc%s " * 60)[:n], "".join(rng.choice("ab c,%\x05\xe9") for _ in range(n))])
    return s


HOSTS = [1, 2, 3, 4, 20, 22, 30, 52, 77, 61]     # (61: from ::1)


class Gen:
    def __init__(self, rng, world, prof):
        self.r, self.w, self.p = rng, world, prof
        self.kinds = list(prof["kinds"])
        self.weights = [prof["kinds"][k] for k in self.kinds]
        self.nicks = prof.get("nicks", NICKS)
        self.groupnames = prof.get("groups", GROUPS)
        self.hosts = prof.get("hosts", HOSTS)
        self.max_clients = prof.get("max_clients", 7)
        self.hostile = prof.get("hostile", 0.15)
        self.tls = prof.get("tls", 0)
        self.todo = []           # what is to come next
        self.crowd = set()       # clients that are only there
        self.hidden = False      # many of them, in groups only the administrator can see
        self.small = world.m.max_users < 100
        if self.small:
            self.max_clients = 30        # (more than there is room for)
            self.opening = self.gather(rng.choice([0, 8, 11, 14]))
        else:
            self.opening = self.gather() if rng.random() < prof.get("crowd", CROWD) else []

    def gather(self, n=None):
        """many others, who do nothing: high descriptors, full tables, groups all over"""
        r = self.r
        n = n if n is not None else min(r.choice([15, 40, 60, 70, 100, 125, 130, 180, 205, 235]), 242 - self.max_clients)
        # (who is logged in: few, as what is shown to one client at once must fit its buffers, or many
        # in groups shown to nobody)
        self.hidden = r.random() < .3
        inside = set(r.sample(range(n), min(n, 130) if self.hidden else min(n, r.choice([0, 0, 5, 25]))))
        ops = []
        for i in range(n):
            ops.append(["conn", r.choice([1, 2, 3]), False])
            self.crowd.add(i)
            if i in inside:
                g = "..zz%d" if self.hidden else r.choice(["zz%d", "zz%d", ".zz%d", "..zz%d"])
                ops.append(["login", i, "zz%d" % (i % 7), "zz%d" % i, g % i if r.random() < .95 else "1", "", "login"])
        for i in r.sample(range(n), min(n, r.choice([0, 0, 3, 6]))):
            ops.append(["close", i, False])
            self.crowd.discard(i)
        return ops

    # -- choosing
    def live(self):
        return [i for i in self.w.live() if i not in self.crowd]

    def loggedin(self):
        return [i for i in self.live() if (u := self.w.user(i)) and u.login >= LOGIN_COMPLETE]

    def anon(self):
        return [i for i in self.live() if (u := self.w.user(i)) and u.login == LOGIN_FALSE]

    def actor(self):
        l = self.loggedin()
        return self.r.choice(l) if l else None

    def mod(self):
        """someone, preferably a moderator in his own group"""
        l = self.loggedin()
        m = [i for i in l if (g := self.w.m.grp(self.w.user(i))) and g.mod == self.w.fd[i]]
        if m and self.r.random() < 0.7:
            return self.r.choice(m)
        return self.actor()

    def in_icb(self, i):
        return lc(self.w.user(i).group) == b"icb"

    def nick(self, own=None):
        r = self.r
        if r.random() < 0.8:
            l = [self.w.user(i).nick.decode("latin1") for i in self.loggedin()]
            if own is not None and r.random() < 0.6:
                g = lc(self.w.user(own).group)
                l2 = [self.w.user(i).nick.decode("latin1") for i in self.loggedin() if lc(self.w.user(i).group) == g]
                l = l2 or l
            if l:
                return self.case(r.choice(l))
        if r.random() < 0.08:
            return self.case("server")
        if r.random() < 0.08:
            return "ADMIN"
        return self.case(r.choice(self.nicks))

    def case(self, s):
        x = self.r.random()
        return s.upper() if x < 0.1 else s.lower() if x < 0.2 else s

    def group(self):
        r = self.r
        l = [g.name.decode("latin1") for _, g in self.w.m.groups()]
        x = r.random()
        if x < 0.55 and l:
            return self.case(r.choice(l))
        if x < 0.63:
            return "@" + self.nick()
        if x < 0.70:
            return "." + r.choice(self.groupnames)
        if x < 0.77:
            return ".." + r.choice(self.groupnames)
        if x < 0.80:
            return r.choice(["", ".", "..", "...", "@", "\x05\x06", "a b", "g\xe9", "ICB", ".1", "12345678", ".12345678", "..12345678", "123456789", ".1234567", "..1234567", "1234567"])
        return self.case(r.choice(self.groupnames))

    def text(self, mx=240):
        r = self.r
        if r.random() < self.hostile:
            return longtext(r)[:mx] if r.random() < 0.4 else r.choice(WORDS)[:mx]
        return r.choice(["hello", "hi there", "the quick brown fox", "msg %d" % r.randrange(1000), "ok"])

    def addr(self):
        """address pattern or address"""
        r = self.r
        us = [self.w.user(i) for i in self.loggedin()]
        if us and r.random() < 0.8:
            u = r.choice(us)
            a, b = u.loginid.decode("latin1"), u.nodeid.decode("latin1")
            return r.choice([a + "@" + b, a + "@*", "*@" + b, "*", a.upper() + "@" + b, "?" + a[1:] + "@" + b, a, b,
                             "[%s]%s@*" % (a[:1] or "a", a[1:]), "[^%s]%s@*" % (a[:1] or "a", a[1:])])
        return r.choice(["nobody@nowhere", "*", "[a-", "\\", "a**b", "[^", "bob@h2.test"])

    def pw(self):
        return self.r.choice(self.p.get("pwds", PWDS))

    # -- one operation
    def next(self):
        while self.opening:
            op = self.opening.pop(0)
            if op[0] != "close" or self.safe(op):
                return op
        while self.todo:
            op = self.todo.pop(0)
            if self.w.user(op[1]) is not None and self.safe(op):
                return op
        for _ in range(200):
            k = self.r.choices(self.kinds, self.weights)[0]
            op = getattr(self, "k_" + k)()
            if op is not None and self.safe(op):
                return op
        return self.k_conn() or ["adv", 1]

    def safe(self, op):
        """operations whose outcome is not specified (the Server user and its group are
        not meant to be administered) are left out"""
        if op[0] in ("half", "zero") or (op[0] == "close" and op[2] is not True):
            # (the server looks at a throttled connection only when its time has come)
            u = self.w.user(op[1])
            if u is not None and u.slow and (self.w.m.now - u.t_recv < 1 or self.w.slowq.get(self.w.fd[op[1]])):
                return False
        q = getattr(self, "pieces", None)
        if q and op[0] in ("pkt", "raw", "cmd", "login") and q[0][0] == op[1]:
            return False         # in the middle of a packet
        if op[0] in ("pkt", "raw", "cmd", "login"):
            u = self.w.user(op[1])
            if u is not None and u.slow and any(v for k, v in self.w.slowq.items() if k != self.w.fd[op[1]]):
                return False         # (two throttled clients: which is served first is not specified)
        if op[0] == "raw" and self.hidden:
            return False
        if op[0] != "cmd":
            return True
        i, c, a = op[1], op[2].lower(), op[3] if len(op) > 3 else ""
        if c == "m" and a.lower().startswith("server "):
            rest = a[7:].strip().split(" ", 1)
            return self.safe(["cmd", i, rest[0], rest[1] if len(rest) > 1 else ""])
        u = self.w.user(i)
        if u is None:
            return True
        if c == "w" and self.hidden and lc(u.nick) == b"admin":
            return False
        if c in ("boot", "pass", "status", "topic", "drop") and self.in_icb(i):
            return False
        if c in ("boot", "drop") and a.lower().split(" ")[0] == "server":
            return False
        if c == "restart" and self.w.m.check_auth(self.w.fd[i]):
            return False
        if c == "shutdown" and self.w.m.check_auth(self.w.fd[i]) and not self.p.get("shutdown"):
            return False
        return True

    def k_burst(self):
        """a number of packets from several clients at once"""
        l = self.live()
        if not self.w.follow or len(l) < 2:
            return None
        items = []
        gone = set()
        kinds = [k for k in self.kinds if k not in ("burst", "pieces", "conn", "adv", "adv_edge", "login", "admin", "relogin")]
        ws = [self.p["kinds"][k] for k in kinds]
        for _ in range(self.r.choice([2, 3, 5, 8, 15])):
            op = getattr(self, "k_" + self.r.choices(kinds, ws)[0])()
            if op is None or op[0] not in ("pkt", "cmd", "raw", "close", "half", "zero") or op[1] in gone or not self.safe(op):
                continue
            if self.risky(op):
                continue
            if op[0] == "half" and self.w.c[op[1]].tls:
                continue         # (TLS ended without saying so: what is still sent there may be lost)
            if op[0] in ("close", "half", "zero"):
                gone.add(op[1])
            items.append(op)
        if gone:
            # (where a user is whose connection is already gone is not specified)
            items = [x for x in items if "whereis" not in " ".join(map(str, x[2:])).lower()]
        return ["burst", items] if items else None

    def risky(self, op):
        """would be left out if the state changed meanwhile (see safe)"""
        return op[0] == "cmd" and any(x in " ".join(map(str, op[2:])).lower().split() for x in ("boot", "drop", "pass", "status", "shutdown",
                                                                                              "restart", "topic", "admin"))

    def k_pieces(self):
        """the bytes of some packets, cut anywhere, other things happening in between"""
        l = [i for i in self.loggedin() if not (self.hidden and lc(self.w.user(i).nick) == b"admin")]
        if not self.w.follow or not l:
            return None
        q = getattr(self, "pieces", None)
        if q:
            i, rest = q[0]
            if i not in self.live():
                q.pop(0)
                return None
            n = self.r.choice([1, 1, 2, 3, 7, 40, 300])
            part, rest = rest[:n], rest[n:]
            if rest:
                q[0] = (i, rest)
            else:
                q.pop(0)
            return ["bytes", i, part.hex()]
        self.pieces = q = []
        i = self.r.choice(l)
        data = b""
        for _ in range(self.r.choice([1, 1, 2, 4])):
            for _ in range(20):
                op = self.r.choice([self.k_open, self.k_m, self.k_w, self.k_whereis, self.k_hush, self.k_noop, self.k_away])()
                if op is not None and op[0] in ("pkt", "cmd"):
                    break
            t, f = ("h", op[2:]) if op[0] == "cmd" else (op[2], op[3:])
            body = (t.encode() + b"\1".join(x.encode("latin1") for x in f))[:254] + b"\0"
            data += bytes([len(body)]) + body
        q.append((i, data))
        return self.k_pieces()

    def k_conn(self):
        if len(self.live()) >= self.max_clients:
            return None
        full = self.small and len(self.w.live()) >= self.w.places()
        if full and self.r.random() < .7:
            return None
        return ["conn", self.r.choice(self.hosts), not full and self.r.random() < self.tls]

    def k_login(self):
        a = self.anon()
        if not a:
            return None
        r = self.r
        i = r.choice(a)
        x = r.random()
        if x < 0.06:
            return ["login", i, "root", "ADMIN", "1", r.choice([ADMIN_PW, ADMIN_PW, "bad", "", ADMIN_PW.upper(), ADMIN_PW[:2], ADMIN_PW[:8], ADMIN_PW + "x", "_test_pwd"])]
        kind = "login" if r.random() < 0.97 else r.choice(["w", "wg", "LOGIN", "foo", ""])
        nick = self.r.choice(self.nicks) if r.random() < 0.9 else self.nick()
        if r.random() < self.hostile * 0.3:
            nick = r.choice(["", " ", "a b", "\x05", "n\xe9", "x" * 30, "ser ver", "Server", "admin", "a.b", "al ice", "%s", "-q"])
        ident = r.choice(self.p.get("ids", IDS))
        if r.random() < self.hostile * 0.15:
            ident = r.choice(["", "a b", "x" * 13, "x" * 40, "r\xe9", "a@b", "*"])
        return ["login", i, ident, nick, r.choice(["1", ""]) if r.random() < 0.15 else self.group(),
                r.choice(["", "", self.pw(), self.pw(), ADMIN_PW]), kind]

    def k_admin(self):
        """an administrator logs in"""
        a = self.anon()
        if not a or self.w.m.find_user(b"admin") >= 0:
            return None
        return ["login", self.r.choice(a), "root", "ADMIN", self.r.choice(["1", "dev", ""]), ADMIN_PW]

    def k_anon(self):
        """something from someone who has not logged in"""
        a = self.anon()
        if not a:
            return None
        i = self.r.choice(a)
        return self.r.choice([["pkt", i, "b", self.text()], ["cmd", i, "m", self.nick() + " psst"], ["cmd", i, "g", self.group()],
                              ["cmd", i, "w", ""], ["cmd", i, "name", "ghost"], ["cmd", i, "whereis", self.nick()], ["pkt", i, "m", ""],
                              ["cmd", i, "p", self.pw()], ["cmd", i, "wall", "x"], ["cmd", i, "beep", self.nick()], ["pkt", i, "n", ""],
                              ["cmd", i, "drop", self.nick()], ["cmd", i, "shutdown", "1"], ["cmd", i, "status", "r"],
                              ["pkt", i, self.r.choice("cdefgijklz"), "q"]])

    def k_heir(self):
        """somebody comes, or renames, under the name of a moderator who is missing, or one like it"""
        r = self.r
        l = [g.missingmod.decode("latin1") for g in self.w.m.g.values() if g.missingmod]
        i = self.actor()
        if not l or i is None:
            return None
        m = r.choice(l)
        v = r.choice([m, m, m.swapcase(), m[:r.randrange(1, len(m) + 1)], m[:-1] or "q", (m + "y")[:12], (m + "x2")[:12]])
        have = self.w.m.get(v.encode("latin1"), b"password")
        pw = have.decode("latin1") if have is not None and r.random() < .8 else self.pw()
        a = self.anon()
        if a and r.random() < .4:
            return ["login", r.choice(a), r.choice(self.p.get("ids", IDS)), v, self.group(), r.choice([pw, pw, ""])]
        ops = [self.c(i, "name", v)] + [self.c(i, "p", pw)] * (r.random() < .7)
        if r.random() < .6:
            ops += [self.c(i, "name", r.choice(["tmp", "tmp2"])), self.c(i, "name", self.case(v))]
        self.todo = ops[1:]
        return ops[0]

    def k_relogin(self):
        i = self.actor()
        return None if i is None else ["login", i, "again", self.nick(), "1"]

    def k_close(self):
        l = self.live()
        if not l:
            return None
        i = self.r.choice(l)
        return ["close", i, "tls" if self.w.c[i].tls and self.r.random() < .4 else self.r.random() < 0.3]

    def k_half(self):
        l = self.live()
        return ["half", self.r.choice(l)] if l else None

    def k_zero(self):
        l = self.live()
        return ["zero", self.r.choice(l)] if l else None

    def k_adv(self):
        return ["adv", self.r.choice(self.p.get("advs", [0.3, 1, 1, 2, 5, 30, 61, 300]))]

    def k_adv_edge(self):
        """to just before, at and after the next deadline"""
        m, now = self.w.m, self.w.m.now
        t = []
        for _, g in m.groups():
            if g.modtimeout > 1:
                t.append(g.modtimeout + 1)
            if g.mod >= 0 and g.control != 1 and g.mod in m.u:
                t.append(m.u[g.mod].t_recv + g.idlemod + 1)
        for x in m.real():
            g = m.grp(x)
            if g is not None and x.login >= LOGIN_COMPLETE and g.idleboot > 0:
                t.append(x.t_recv + g.idleboot + 1)
            if x.slow:
                t.append(x.t_recv + 1)
        if m.time_to_die > 0:
            t += [m.time_to_die, m.time_to_die - 60, m.time_to_die - 300]
        t = [x - now for x in t if 0 <= x - now < 90000]
        if not t:
            return None
        d = self.r.choice(t) if self.r.random() < 0.5 else min(t)
        d += self.r.choice([-1, 0, 0, 1])
        frac = (1000000 - m.now_us % 1000000) / 1e6 if m.now_us % 1000000 else 0
        return ["adv", d - 1 + frac if d > 1 and frac else max(d, 0.1)]

    def k_away_again(self):
        """somebody writes again to one who is away, about when he may be told again"""
        l = []
        for i in self.loggedin():
            for x in self.w.m.real():
                if x.awaymsg and x.lastawaytime and x.lastaway == self.w.fd[i]:
                    l.append((i, x))
        if not l:
            return None
        i, x = self.r.choice(l)
        d = x.lastawaytime + AWAY_NOSEND_TIME - self.w.m.now + self.r.choice([-1, 0, 0, 1])
        nick = x.nick.decode("latin1")
        self.todo.append(self.r.choice([["cmd", i, "m", nick + " again"], ["cmd", i, "m", nick + " again"], ["cmd", i, "beep", nick]]))
        return ["adv", d] if d > 0 else self.todo.pop()

    def k_open(self):
        i = self.actor()
        return None if i is None else ["pkt", i, "b", self.text()]

    def k_flood(self):
        """several open messages in a row"""
        l = self.loggedin()
        one = [i for i in l if self.w.user(i).group == b"1"]
        i = self.r.choice(one) if one and self.r.random() < .8 else self.actor()
        if i is None:
            return None
        self.todo = [["pkt", i, "b", self.text()] for _ in range(self.r.choice([1, 2, 3, 4]))]
        return ["pkt", i, "b", self.text()]

    def k_open_odd(self):
        i = self.actor()
        if i is None:
            return None
        f = [self.text(60) for _ in range(self.r.choice([2, 3]))]
        return ["pkt", i, "b"] + f

    def k_raw(self):
        l = self.live()
        if not l:
            return None
        r = self.r
        i = r.choice(l)
        t = r.choice("abcdefghijklmnoz\x00\x01\xff%")
        n = r.choice([0, 1, 2, 10, 60, 200, 252, 253, 254])
        body = bytes(r.choice(b"ab %sn\x01\x01\x00\x05\xff,@./-") for _ in range(n))
        if t == "h":
            body = r.choice([b"m", b"g", b"w", b"name", b"status", b"invite", b"zz", b"", b"topic", b"away", b"v", b"beep"]) + b"\1" + body
            if body[:3] in (b"g\1.",) or len(body) > 254:
                body = body[:254]
        if t == "h" and b"\1" in body and self.in_icb_safe(i):
            return None
        d = (t.encode("latin1") + body)[:255]
        return ["raw", i, d.hex()]

    def in_icb_safe(self, i):
        u = self.w.user(i)
        return u is not None and u.login >= LOGIN_COMPLETE and self.in_icb(i)

    def k_maxlen(self):
        """a packet of exactly the maximum length"""
        i = self.actor()
        if i is None:
            return None
        t, pre = self.r.choice([("b", b""), ("h", b"m\1" + self.nick().encode("latin1") + b" "), ("h", b"away\1%s"), ("h", b"topic\1"),
                                ("h", b"write\1bob "), ("h", b"beep\1")])
        n = self.r.choice([253, 254])
        body = (pre + b"y" * 300)[:n]
        d = t.encode() + body
        if self.r.random() < 0.5:
            d = d[:254] + b"\0"
        op = ["raw", i, d[:255].hex()]
        return op if not self.in_icb_safe(i) else None

    def c(self, i, cmd, arg):
        """a command, sometimes by way of a message to the server"""
        if i is None:
            return None
        if self.r.random() < 0.06:
            cmd = self.case(cmd)
        if self.r.random() < 0.06 and len(arg) < 200:
            return ["cmd", i, "m", "server " + cmd + " " + arg]
        return ["cmd", i, cmd, arg]

    def k_m(self):
        i = self.actor()
        return None if i is None else ["cmd", i, "m", self.nick() + " " + self.text(220)]

    def k_exclude(self):
        i = self.actor()
        return None if i is None else self.c(i, "exclude", self.nick(i) + " " + self.text(220))

    def k_g(self):
        i = self.actor()
        return None if i is None else self.c(i, "g", self.group())

    def k_g3(self):
        i = self.actor()
        return None if i is None else ["pkt", i, "h", "g", self.group(), "x"]

    def k_name(self):
        i = self.actor()
        n = self.nick() if self.r.random() < 0.3 else self.r.choice(self.nicks)
        if self.r.random() < self.hostile * 0.5:
            n = self.r.choice(["", "\x05", "a b", "ADMIN", "Server", "n\xe9w", "z" * 40, "s\x01x", "%n"])
        return None if i is None else self.c(i, "name", n)

    def flagged(self, fl, n=0.5):
        s = ""
        for f in fl:
            if self.r.random() < n:
                s += "-" + f + " "
        if self.r.random() < self.hostile * 0.3:
            s += self.r.choice(["-z ", "- ", "-qq ", "-q -q ", "-sn ", "-"])
        return s

    def k_invite(self):
        i = self.mod()
        if i is None:
            return None
        r = self.r
        if r.random() < 0.1:
            return self.c(i, "invite", r.choice(["", "-q", "-r"]))
        if r.random() < 0.35:
            return self.c(i, "invite", self.flagged("qr", 0.3) + "-s " + self.addr())
        return self.c(i, "invite", self.flagged("qrn", 0.3) + self.nick())

    def k_cancel(self):
        i = self.mod()
        if i is None:
            return None
        g = self.w.m.grp(self.w.user(i))
        if g and self.r.random() < 0.7:
            l = [("-n", x) for x in g.n_inv.l + g.nr_inv.l] + [("-s", x) for x in g.s_inv.l + g.sr_inv.l]
            if l:
                f, x = self.r.choice(l)
                return self.c(i, "cancel", self.flagged("q", 0.2) + f + " " + x.decode("latin1"))
        if self.r.random() < 0.3:
            return self.c(i, "cancel", "-s " + self.addr())
        return self.c(i, "cancel", self.flagged("qn", 0.3) + self.nick())

    def k_pass(self):
        i = self.mod()
        return None if i is None else self.c(i, "pass", "" if self.r.random() < 0.15 else self.nick(i))

    def k_boot(self):
        i = self.mod()
        if i is None:
            return None
        msg = "" if self.r.random() < 0.5 else " " + self.r.choice(["bye", "%s be gone", "%d", "%s %s", "100%%", self.text(200)])
        return self.c(i, "boot", self.nick(i) + msg)

    def k_status(self):
        i = self.mod()
        if i is None:
            return None
        r = self.r
        if r.random() < 0.1:
            return self.c(i, "status", "")
        o = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            every = ["r", "m", "c", "p", "i", "s", "v", "q", "n", "l", "#", "b", "im", "idlebootmsg", "name", "?", "zz"]
            x = r.choice(every if r.random() < .1 else self.p.get("status", every))
            if x == "#":
                x += " " + r.choice(["0", "1", "2", "3", "99999", "-1", "254", "255", "zz", "", str(r.randrange(20))])
            elif x == "b":
                x += " " + r.choice(["0", "1", "2", "30", "59", "60", "61", "90", "600", "1439", "1440", "-1", "35791394", "35791395", "99999999999", "zz", str(r.randrange(200)), str(r.randrange(59, 62))])
            elif x == "im":
                x += " " + r.choice(["0", "1", "2", "30", "59", "60", "61", "119", "120", "121", "239", "240", "240", "241", "-1", "71582789", "zz", str(r.randrange(200)), str(r.randrange(59, 62))])
            elif x == "idlebootmsg":
                x += " " + r.choice(["%s idled", "no", "%s %s", "%d %s", "%s" + "z" * 60, "%s " + "z" * 50, "%s" + "z" * r.choice([51, 52, 53]), "100%% %s"])
            elif x == "name":
                x += " " + r.choice(self.groupnames + ["1", "ICB", "new", "a\x05b", "veryverylonggroupname", ""])
            o.append(x)
        return self.c(i, "status", " ".join(o))

    def k_status_q(self):
        i = self.actor()
        return None if i is None else self.c(i, "status", "")

    def k_topic(self):
        i = self.mod()
        return None if i is None else self.c(i, "topic", "" if self.r.random() < 0.2 else self.text())

    def k_talk(self):
        i = self.mod()
        return None if i is None else self.c(i, "talk", self.flagged("aqrd", 0.35) + self.nick(i))

    def k_w(self):
        i = self.actor()
        if i is None:
            return None
        a = self.r.choice(["", "", "", "-g", "-s", "."])
        if self.r.random() < 0.5:
            a = (a + " " if a.startswith("-") else "") + self.group()
        if self.r.random() < 0.03:
            a = self.r.choice(["?", "-z", "-g .", "@", "zzzzzzzzzzzzzz", "@server", "%s"])
        return self.c(i, "w", a)

    def k_whereis(self):
        i = self.actor()
        return None if i is None else self.c(i, "whereis", "" if self.r.random() < 0.3 else self.nick())

    def k_beep(self):
        i = self.actor()
        return None if i is None else self.c(i, "beep", self.nick())

    def k_hush(self):
        i = self.actor()
        if i is None:
            return None
        r = self.r
        if r.random() < 0.12:
            return self.c(i, r.choice(["hush", "shush"]), "")
        u = self.w.user(i)
        have = [(a, x) for a, l in (("-p", u.pri_n), ("-o", u.pub_n), ("-p -s", u.pri_s), ("-o -s", u.pub_s)) for x in l.l]
        if have and r.random() < 0.2:
            # one that is there goes
            a, x = r.choice(have)
            if r.random() < .5:
                self.todo = [self.c(i, "hush", "")]
            return self.c(i, "hush", r.choice(["", "", "-q "]) + a + " " + self.case(x.decode("latin1")))
        if r.random() < 0.35:
            return self.c(i, "hush", self.flagged("qpo", 0.3) + "-s " + self.addr())
        return self.c(i, "hush", self.flagged("qpon", 0.25) + (self.nick() if r.random() < 0.8 else r.choice(["a*", "*", "?ob", "[ab]*"])))

    def k_hush_mod(self):
        """a moderator hushes somebody"""
        i = self.mod()
        if i is None:
            return None
        return self.c(i, "hush", self.flagged("pq", 0.4) + (("-s " + self.addr()) if self.r.random() < 0.6 else self.nick(i)))

    def k_notify(self):
        i = self.actor()
        if i is None:
            return None
        r = self.r
        if r.random() < 0.12:
            return self.c(i, "notify", "")
        u = self.w.user(i)
        have = [(a, x) for a, l in (("", u.n_not), ("-s ", u.s_not)) for x in l.l]
        if have and r.random() < 0.2:
            a, x = r.choice(have)
            if r.random() < .5:
                self.todo = [self.c(i, "notify", "")]
            return self.c(i, "notify", r.choice(["", "", "-q "]) + a + self.case(x.decode("latin1")))
        if r.random() < 0.35:
            return self.c(i, "notify", self.flagged("q", 0.3) + "-s " + self.addr())
        return self.c(i, "notify", self.flagged("qn", 0.3) + (r.choice(self.nicks) if r.random() < 0.7 else self.nick()))

    def k_fill(self):
        """one of somebody's lists gets as long as it may be, or longer"""
        i = self.actor()
        if i is None:
            return None
        r = self.r
        u = self.w.user(i)
        cmd, a, l = r.choice([("hush", "-p ", u.pri_n), ("hush", "-o ", u.pub_n), ("hush", "-p -s ", u.pri_s), ("hush", "-o -s ", u.pub_s), ("hush", "", u.pub_n), ("hush", "-s ", u.pri_s),
                              ("notify", "", u.n_not), ("notify", "-s ", u.s_not)])
        return self.filled(i, cmd, a, l.max + r.choice([-1, 0, 0, 1, 2]) - len(l), l, r.choice(["", "-q "]))

    def filled(self, i, cmd, a, n, l, q=""):
        r = self.r
        new = ["f%s%d" % (r.choice("ab") * r.choice([1, 1, 1, 5]), k) for k in range(n)]
        todo = [self.c(i, cmd, q + a + x) for x in new]
        if cmd in ("hush", "notify"):
            todo += [self.c(i, cmd, "")] * (r.random() < .6)
        for _ in range(r.choice([0, 1, 2, 4])):
            todo.append(self.c(i, cmd, r.choice(["", "-q "]) + a + self.case(r.choice(new + [x.decode("latin1") for x in l.l]))) if new or l.l else self.c(i, cmd, a + "x"))
        todo.append(self.c(i, cmd, "" if cmd in ("hush", "notify") else "-q " + a + "last"))
        self.todo = todo[1:]
        return todo[0]

    def k_fill_group(self):
        """one of a group's lists gets longer than it can be: the oldest goes"""
        i = self.mod()
        g = self.w.m.grp(self.w.user(i)) if i is not None else None
        if g is None:
            return None
        r = self.r
        cmd, a, l = r.choice([("invite", "", g.n_inv), ("invite", "-r ", g.nr_inv), ("invite", "-s ", g.s_inv), ("invite", "-r -s ", g.sr_inv), ("talk", "-a ", g.n_talk), ("talk", "-a -r ", g.nr_talk)])
        op = self.filled(i, cmd, a, l.max + r.choice([-2, -1, 0, 1, 3]) - len(l), l, r.choice(["", "-q ", "-q "]))
        # whoever was in the list first, or is there still, comes
        old = [x.decode("latin1") for x in l.l]
        j = self.actor()
        if j is not None and cmd == "invite":
            self.todo.append(self.c(j, "g", g.name.decode("latin1")))
        return op

    def k_echoback(self):
        i = self.actor()
        return None if i is None else self.c(i, "echoback", self.r.choice(["on", "off", "verbose", "VERBOSE", "zz", ""]))

    def k_nobeep(self):
        i = self.actor()
        return None if i is None else self.c(i, "nobeep", self.r.choice(["on", "off", "verbose", "ON", "zz", ""]))

    def k_ping(self):
        i = self.actor()
        return None if i is None else self.c(i, "ping", "" if self.r.random() < 0.2 else self.nick())

    def k_pong(self):
        l = self.loggedin()
        p = [i for i in l if self.w.user(i).pong_req != -1]
        i = self.r.choice(p) if p and self.r.random() < 0.9 else self.actor()
        return None if i is None else ["pkt", i, "m"] + ([self.text(50)] if self.r.random() < 0.2 else [""])

    def k_noop(self):
        i = self.actor()
        return None if i is None else ["pkt", i, "n", ""]

    def k_away(self):
        i = self.actor()
        if i is None:
            return None
        return self.c(i, "away", self.r.choice(["", "%s gone", "gone", "hi %s, lunch", "%s %s", "%n %s", "100%% %s", "%s " + "z" * 200,
                                                "%s " + self.text(100)]))

    def k_noaway(self):
        i = self.actor()
        return None if i is None else self.c(i, "noaway", "")

    def k_p(self):
        i = self.actor()
        return None if i is None else self.c(i, "p", self.pw())

    def k_cp(self):
        i = self.actor()
        if i is None:
            return None
        have = self.w.m.get(self.w.user(i).nick, b"password")
        old = have.decode("latin1") if have is not None and self.r.random() < 0.6 else self.pw()
        return self.c(i, "cp", old + " " + self.r.choice([self.pw(), self.pw(), ""]))

    def k_delete(self):
        i = self.actor()
        if i is None:
            return None
        have = self.w.m.get(self.w.user(i).nick, b"password")
        return self.c(i, "delete", have.decode("latin1") if have is not None and self.r.random() < 0.5 else self.pw())

    def k_secure(self):
        i = self.actor()
        return None if i is None else self.c(i, self.r.choice(["secure", "nosecure"]), "")

    def k_setinfo(self):
        i = self.actor()
        if i is None:
            return None
        c = self.r.choice(["rname", "text", "addr", "phone", "www", "email"])
        n = {"rname": 25, "text": 200, "addr": 79, "phone": 14, "www": 80, "email": 60}[c]
        t = self.r.choice(["", "value", "two words", "w" * n, "w" * (n + 1), "a|b|c", ("some words " * 30)[:n], self.text(), "|", "x" * (n - 1)])
        if c in ("text", "addr") and self.r.random() < .6:
            t = ""
            while len(t) < self.r.choice([20, n, n, n + 5]):         # words and pieces of many lengths
                t += self.r.choice("abxyz") * self.r.choice([1, 2, 3, 5, 8, 12, 20, 21, 22, 23, 24, self.r.randint(36, 44), self.r.randint(58, 64), 66])
                t += self.r.choice([" ", " ", " ", "  ", "\n", "\n\n", " \n"] if c == "text" else ["|", "|", "||", " | ", " "])
        return self.c(i, c, t)

    def k_whois(self):
        i = self.actor()
        return None if i is None else self.c(i, "whois", self.r.choice(["", "server", self.nick(), self.r.choice(self.nicks)]))

    def k_info(self):
        i = self.actor()
        return None if i is None else self.c(i, self.r.choice(["info", "help", "?", "usage"]), "")

    def k_write(self):
        i = self.actor()
        return None if i is None else self.c(i, "write", (self.nick() if self.r.random() < 0.6 else self.r.choice(self.nicks)) + " " + self.text(220))

    def k_read(self):
        i = self.actor()
        return None if i is None else self.c(i, "read", "")

    def k_drop(self):
        i = self.actor()
        if i is None:
            return None
        n = self.nick()
        have = self.w.m.get(n.encode("latin1"), b"password")
        pw = self.r.choice(["", self.pw(), have.decode("latin1") if have else self.pw()])
        return self.c(i, "drop", n + (" " + pw if pw else ""))

    def k_wall(self):
        i = self.actor()
        return None if i is None else self.c(i, "wall", self.text())

    def k_admincmd(self):
        l = [i for i in self.loggedin() if lc(self.w.user(i).nick) == b"admin"]
        i = self.r.choice(l) if l and self.r.random() < 0.6 else self.actor()
        if i is None:
            return None
        c = self.r.choice(["wall", "log", "drop", "boot", "pass", "stats", "g", "w", "shutdown", "restart"])
        a = {"wall": self.text(), "log": self.r.choice(["", "0", "1", "2", "zz", "-3"]), "drop": self.nick(), "boot": self.nick(i),
             "pass": self.nick(i), "stats": self.r.choice(["reset", ""]), "g": self.group(), "w": self.r.choice(["", self.group()]),
             "shutdown": self.r.choice(["6", "5", "1", "4", "2", "10", "301", "0", "-1", "zz"]), "restart": ""}[c]
        return self.c(i, c, a)

    def k_shutdown(self):
        l = [i for i in self.loggedin() if lc(self.w.user(i).nick) == b"admin"]
        i = self.r.choice(l) if l else self.actor()
        return None if i is None else self.c(i, "shutdown", self.r.choice(["6", "5", "1", "4", "2", "10", "301", "299", "300", "30"]))

    def k_stats(self):
        i = self.actor()
        return None if i is None else self.c(i, self.r.choice(["stats", "v"]), "")

    def k_shuttime(self):
        i = self.actor()
        return None if i is None else self.c(i, "shuttime", "")

    def k_files(self):
        i = self.actor()
        if i is None:
            return None
        return self.c(i, *self.r.choice([("motd", ""), ("news", ""), ("news", "1"), ("news", "3"), ("news", "zz"), ("s_help", ""),
                                         ("news", "../motd"), ("news", "x" * 200)]))

    def k_brick(self):
        i = self.actor()
        if i is None:
            return None
        rich = max(self.loggedin(), key=lambda k: self.w.user(k).bricks)
        if self.r.random() < .4:        # everyone's bricks to one
            l = [k for k in self.loggedin() if k != rich and self.w.user(k).bricks > 0]
            if l:
                return self.c(self.r.choice(l), "brick", self.case(self.w.user(rich).nick.decode("latin1")))
        return self.c(self.r.choice([i, i, rich]), "brick", self.r.choice(["", self.nick(), self.nick(i), self.nick(i)]))

    def k_badcmd(self):
        i = self.actor()
        if i is None:
            return None
        return self.r.choice([["cmd", i, "zz", "y"], ["cmd", i, "", ""], ["pkt", i, "h", "m"], ["pkt", i, "h", "m", "a", "b"], ["pkt", i, "h", "g"],
                              ["pkt", i, "h", "name", "a", "b", "c"], ["cmd", i, "%s%n", "x"], ["cmd", i, "x" * 250, ""],
                              ["pkt", i, self.r.choice("cdefgijklz"), "q"]])

    def k_loglevel(self):
        l = [i for i in self.loggedin() if lc(self.w.user(i).nick) == b"admin"]
        if not l:
            return self.k_admin()
        return self.c(self.r.choice(l), "log", self.r.choice(["3", "3", "3", "3", "4", "5", "2", "1", "0"]))

    def k_forge(self):
        """something that looks like a line of the log, in whatever might get there"""
        r = self.r
        t = r.choice(["x", "zz", "g"]) + r.choice(["\n", "\r\n", "\r", "\n\n", "\x0b", "\x1b[2K", "\x7f"]) + r.choice(
            ["[INFO]  Nov 18 2026 10:00:00 %s: [LOGIN] 5: root@h" % self.w.host.decode(), "[ERR]", "[LOST] 3: bob@localhost", "%s%n%d", "x" * r.choice([10, 100, 180])])
        if r.random() < .4:
            l = self.anon()
            if not l:
                return self.k_conn()
            i = r.choice(l)
            return r.choice([["cmd", i, t, "y"], ["cmd", i, "g", t], ["pkt", i, "b", t], ["pkt", i, "a", t, "n", "g", r.choice(["w", "wg"]), ""],
                             ["pkt", i, "a", t, "n", "g", "login", ""], ["pkt", i, "z", t]])
        i = self.actor()
        if i is None:
            return None
        return r.choice([["cmd", i, t, "y"], ["cmd", i, "m", "x " + t], ["cmd", i, "beep", t], ["pkt", i, "z", t], ["pkt", i, "b", t], ["cmd", i, "log", t], ["cmd", i, t, t]])


ALL = {k[2:]: 1 for k in dir(Gen) if k.startswith("k_")}
