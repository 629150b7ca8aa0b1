"""The database tools of support/ against a map, with faults, and the server on what they leave."""
import hashlib, json, multiprocessing as mp, os, random, re, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
import build, runner, world
from pathlib import Path

SUFFIXES = "addr email home nick nummsg password phone realname secure signoff signon text www".split()
NICKS = ["bob", "bobby", "bo", "alice", "al.ice", "bob.x", "carol", "-dash", "z?", "nick", "password", "dave_", "server", "admin", "eve"]
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


class Bad(Exception):
    def __init__(self, key, text):
        self.key = key
        super().__init__(text)


def dump(db):
    return b"IDB\1" + struct.pack("<I", len(db)) + b"".join(struct.pack("<II", len(k), len(v)) + k + v for k, v in db.items())


def parse(path):
    try:
        b = Path(path).read_bytes()
    except FileNotFoundError:
        return {}
    if b[:4] != b"IDB\1" or len(b) < 8:
        return "bad header %r" % b[:8]
    n, o, out = struct.unpack("<I", b[4:8])[0], 8, {}
    for _ in range(n):
        if o + 8 > len(b):
            return "cut short"
        k, v = struct.unpack("<II", b[o:o + 8])
        if o + 8 + k + v > len(b):
            return "cut short"
        key = b[o + 8:o + 8 + k]
        if key in out:
            return "%r twice" % key
        out[key] = b[o + 8 + k:o + 8 + k + v]
        o += 8 + k + v
    return out if o == len(b) else "%d bytes too many" % (len(b) - o)


def value(r):
    k = r.randrange(9)
    if k == 0:
        return bytes(r.choice(b"abc \xe9\xff\xc3\x80\xf0") for _ in range(r.randrange(1, 30)))
    if k == 1:
        return "käse €uro 漢".encode()
    if k == 2:
        return b"a|b|c"
    if k == 3:
        return r.choice([b"x = y", b"%s %d", b"\\n", b"'\"$HOME`", b"#x", b"| |", b"=", b"-"])
    if k == 4:
        return b"w" * r.choice([1, 79, 200, 255, 1000])
    return r.choice([b"hello", b"some words here", b"1", b"http://x.test/", b"555-1234"])


def day(k):
    t = time.gmtime(time.time() - 86400 * k)
    return b"%2d-%s-%d 12:34 UTC" % (t.tm_mday, MON[t.tm_mon - 1].encode(), t.tm_year)


def gen_db(r, server=False):
    db = {}
    for n in r.sample(NICKS, r.choice([0, 1, 3, 6, 10])):
        e = {}
        e["nick"] = n.encode() if r.random() < .7 or n in ("server", "admin") else n.upper().encode()
        e["password"] = r.choice([b"pw", b"p\xe9\xff", b"a|b", b"abcdefghijkl"])
        e["home"] = b"u@h2.test"
        for a in ("addr", "email", "phone", "realname", "text", "www"):
            if r.random() < .5:
                e[a] = value(r)[:60] if server else value(r)
        if r.random() < .3:
            e["secure"] = b"SECURED"
        if r.random() < .8:
            e["signon"] = day(r.choice([0, 1, 29, 30, 31, 99, 100, 101, 365, 400, 3000]))
        if r.random() < .7:
            e["signoff"] = day(r.choice([0, 1, 29, 30, 31, 99, 100, 101, 364, 365, 366, 3000]))
        m = r.choice([0, 0, 1, 2, 9, 10, 11, 20])
        if r.random() < .8 or m:
            e["nummsg"] = b"%d" % m
        for i in range(1, m + 1):
            e["header%d" % i] = b"Message left at %s:" % day(3)
            e["from%d" % i] = b"carol"
            e["message%d" % i] = value(r)[:100]
        items = list(e.items())
        r.shuffle(items)
        for a, v in items:
            db[("%s.%s" % (n, a)).encode()] = v
    items = list(db.items())
    r.shuffle(items)
    return dict(items)


def own(db, n):
    """everything that belongs to a nickname: its fields and the messages its mailbox holds"""
    n = n.encode()
    m = int(db.get(n + b".nummsg", b"0") or 0)
    keys = [s.encode() for s in SUFFIXES] + [b"%s%d" % (a, i) for i in range(1, m + 1) for a in (b"header", b"from", b"message")]
    return {n + b"." + k for k in keys} & set(db)


class Case:
    def __init__(self, sc, so):
        self.r = random.Random(sc["seed"])
        self.sc, self.so = sc, so
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="icbv."))
        self.path = os.path.join(self.dir, "icbdb.db")
        self.db = gen_db(self.r, sc["server"])
        self.counts, self.log = {}, []
        self.files = 0
        if self.db or self.r.random() < .5:
            self.put(dump(self.db))

    def put(self, b):
        Path(self.path).write_bytes(b)
        os.chmod(self.path, 0o600)

    def tool(self, name, *args, stdin=b"", fault=None, stdout=subprocess.PIPE, interrupt=False):
        """-> (status, output, error output)"""
        env = {"PATH": os.environ.get("PATH", ""), "TZ": "UTC", "LC_ALL": self.sc["locale"], "PYTHONDONTWRITEBYTECODE": "1"}
        self.files += 1
        log = os.path.join(self.dir, "log.%d" % self.files)
        env.update(LD_PRELOAD=self.so, TOOL_DIR=self.dir, TOOL_LOG=log)
        if fault:
            env.update(TOOL_MODE=str(fault[0]), TOOL_AT=str(fault[1]))
        a = [x if isinstance(x, bytes) else x.encode() for x in args]
        cmd = [sys.executable.encode(), str(build.REPO / "support" / (name + ".py")).encode()] + a
        p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.PIPE, stdout=stdout, stderr=subprocess.PIPE)
        try:
            if interrupt:       # half of its input is there, more does not come
                p.stdin.write(stdin[:len(stdin) // 2 + 8192] if len(stdin) > 20000 else stdin)
                p.stdin.flush()
                time.sleep(.4)
                p.send_signal(signal.SIGINT)
            out, err = p.communicate(b"" if interrupt else stdin, timeout=120)
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        k = name + (" (fault)" if fault else "")
        self.counts[k] = self.counts.get(k, 0) + 1
        self.log.append([name] + [x.decode("latin1") for x in a])
        self.events = Path(log).read_text().splitlines() if os.path.exists(log) else []
        return p.returncode, out, err

    def fine(self, res, name):
        if res[0] != 0:
            raise Bad("tool-failed:" + name, "%s ended with status %d: %s" % (self.log[-1], res[0], res[2][-600:]))
        return res[1].split(b"\n")

    def same(self, what, db=None, path=None):
        got, want = parse(path or self.path), self.db if db is None else db
        if os.path.exists(path or self.path) and os.stat(path or self.path).st_mode & 0o077:
            raise Bad("readable:" + what, "after %s everybody can read the database" % self.log[-1])
        if isinstance(got, str):
            raise Bad("unreadable:" + what, "after %s the file is unreadable: %s" % (self.log[-1], got))
        if got != want:
            d = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
            raise Bad("wrong:" + what, "after %s: %s" % (self.log[-1], "; ".join("%r is %r, should be %r" % (k, got.get(k), want.get(k)) for k in d[:5])))

    def synced(self, what):
        dirty = set()
        for l in self.events:
            f = l.split(" ")
            if f[0] == "write":
                dirty.add(f[1])
            elif f[0] == "sync":
                dirty.discard(f[1])
            elif f[0] == "rename" and os.path.join(self.dir, f[1]) in dirty:
                raise Bad("unsynced:" + what, "%s: the new file was put in place before it was synced" % self.log[-1])

    # -- the tools
    def t_cat(self):
        out = self.fine(self.tool("catdb", *self.where()), "catdb")
        if sorted(out[:-1]) != sorted(k + b" = " + v for k, v in self.db.items()):
            raise Bad("wrong-listing", "catdb shows %r for %r" % (out[:6], list(self.db.items())[:6]))
        self.same("catdb")

    def where(self):
        return self.r.choice([[], ["./icbdb"], [os.path.join(self.dir, "icbdb")]])

    def t_count(self):
        out = self.fine(self.tool("countdb", *self.where()), "countdb")
        n = sum(k.endswith(b".nick") for k in self.db)
        if re.findall(rb"\d+", b" ".join(out)) != [b"%d" % n]:
            raise Bad("wrong-count", "countdb says %r, there are %d" % (out, n))
        self.same("countdb")

    def t_find(self):
        n = self.r.choice([x for x in NICKS if x[0] != "-"])
        out = [x.strip() for x in self.fine(self.tool("finddb", *self.r.choice([[], ["-d", "./icbdb"]]), n), "finddb")]
        k = n.encode()
        if k + b".nick" not in self.db:
            if out[:1] != [k + b" not registered."]:
                raise Bad("wrong-find", "finddb %s says %r" % (n, out[:3]))
            return
        for s in SUFFIXES:
            v = self.db.get(k + b"." + s.encode())
            have = [x for x in out if x.startswith(s.encode() + b":")]
            if v is None and have or v is not None and (s.encode() + b": " + v).strip() not in out:
                raise Bad("wrong-find", "finddb %s: %s is %r, shown as %r" % (n, s, v, have))
        for i in range(1, int(self.db.get(k + b".nummsg", b"0") or 0) + 1):
            for a in ("header", "from", "message"):
                v = self.db.get(k + b".%s%d" % (a.encode(), i), b"").strip()
                if v not in out:
                    raise Bad("wrong-find", "finddb %s does not show %s%d %r" % (n, a, i, v))
        self.same("finddb")

    def del_op(self):
        ns = self.r.sample(NICKS, self.r.choice([1, 1, 1, 2, 3]))
        after = dict(self.db)
        for n in ns:
            for k in own(after, n):
                del after[k]
        a = self.r.choice([[], ["-q"]]) + self.r.choice([[], ["-d", "./icbdb"], ["--database", os.path.join(self.dir, "icbdb")]]) + ["--"]
        return "deldb", a + [n.upper() if self.r.random() < .3 else n for n in ns], b"", after

    def set_op(self):
        keys = [k for k in self.db if not k.endswith((b".nummsg", b".nick"))] or [b"bob.password"]
        k = self.r.choice(keys) if self.r.random() < .6 else self.r.choice([b"bob.password", b"eve.text", b"bobby.secure", b"new.nick"])
        v = value(self.r)
        a = self.r.choice([[], ["-d", "./icbdb"]])
        return "setdb", a + [k, v], b"", dict(self.db, **{}) | {k: v}

    def import_op(self):
        add = gen_db(self.r, self.sc["server"])
        add = {k: v for k, v in list(add.items())[:self.r.choice([1, 5, 1000])]}
        return "dbimport", self.where(), b"".join(k + b"|" + v + b"\n" for k, v in add.items()), self.db | add

    def mk_op(self):
        ans = [self.r.choice([b"", b"Some Admin", b"Andr\xe9"]), self.r.choice([b"", b"icb@x.test"]), self.r.choice([b"", b"a@b.test"])]
        d = {b"server.realname": ans[0] or b"Server Admin", b"server.nick": b"server", b"server.home": ans[1] or b"icb@yourdomain.com",
             b"server.email": ans[2] or b"icbadmin@yourdomain.com", b"server.text": b"Here to server you!", b"server.nummsg": b"0", b"server.www": b"http://www.icb.net/"}
        return "mkdb", self.where(), b"".join(x + b"\n" for x in ans), self.db | d

    def change(self, op):
        name, args, stdin, after = op
        self.fine(self.tool(name, *args, stdin=stdin), name)
        self.db = after
        self.same(name)
        self.synced(name)

    def t_del(self):
        self.change(self.del_op())

    def t_set(self):
        self.change(self.set_op())

    def t_import(self):
        self.change(self.import_op())

    def t_big(self):
        """keys and values of any size: refused, or stored such that the server can still read the file"""
        n = (1 << self.r.choice([16, 20, 20, 20])) + self.r.choice([-1, 0, 1, 1])
        k, v = (b"big.x", b"v" * n) if self.r.random() < .7 else (b"k" * n, b"v")
        res = self.tool("dbimport", *self.where(), stdin=b"%s|%s\n" % (k, v))
        if res[0] == 0:
            self.db = self.db | {k: v}
        self.counts["big, stored" if res[0] == 0 else "big, refused"] = self.counts.get("big, stored" if res[0] == 0 else "big, refused", 0) + 1
        if res[0] != 0 and n < 1 << 20:
            raise Bad("tool-failed:big", "%s ended with status %d: %s" % (self.log[-1], res[0], res[2][-600:]))
        if self.db or os.path.exists(self.path):
            self.same("dbimport, %d bytes" % n)
        if res[0] == 0 and self.sc["server"]:
            self.serve()
        if res[0] == 0:
            self.put(dump({a: b for a, b in self.db.items() if a != k}))
            self.db.pop(k)

    def t_mk(self):
        self.change(self.mk_op())

    def t_export(self):
        out = self.tool("dbexport", *self.where())
        self.fine(out, "dbexport")
        self.same("dbexport")
        new = os.path.join(self.dir, "copy%d" % self.files)
        res = self.tool("dbimport", new, stdin=out[1])
        self.fine(res, "dbimport")
        self.same("export and import", path=new + ".db")

    def t_prune(self):
        r = self.r
        days = r.choice([None, 30, 30, 100, 100, 365])
        today = time.gmtime()[:3]
        n = days or 365
        cand = []
        for k, v in self.db.items():
            if not k.endswith(b".nick") or v in (b"server", b"admin"):
                continue
            t = self.db.get(k[:-5] + b".signoff") or self.db.get(k[:-5] + b".signon")
            m = re.match(rb"\s*(\d+)-(\w+)-(\d+) ", t or b"")
            if m:
                import calendar
                then = calendar.timegm((int(m.group(3)), MON.index(m.group(2).decode()) + 1, int(m.group(1)), 0, 0, 0))
                if (calendar.timegm(today + (0, 0, 0)) - then) // 86400 >= n:
                    cand.append(k[:-5].decode())
        a = ([] if days is None else [r.choice(["-d", "--days"]), str(days)]) + r.choice([[], ["-q"]]) + r.choice([[], ["--database", "./icbdb"]])
        if r.random() < .5:
            res = self.tool("nickprune", *a, r.choice(["-y", "--yes"]))
            gone = cand
        else:
            ans = [r.choice([b"y", b"yes", b"n", b"", b"q" if r.random() < .3 else b"no"]) for _ in range(r.choice([2, 30]))]
            res = self.tool("nickprune", *a, stdin=b"".join(x + b"\n" for x in ans))
            asked = [x.decode("latin1") for x in re.findall(rb"Delete (\S+)\? \[n\]", res[1])]
            gone = []
            for k, x in enumerate(asked):
                if k >= len(ans) or ans[k][:1] == b"q":
                    if asked[k + 1:]:
                        raise Bad("wrong:nickprune", "nickprune went on asking: %r" % asked)
                    break
                if ans[k][:1] == b"y":
                    gone.append(x)
            if not set(asked) <= set(cand) or (not any(x[:1] == b"q" for x in ans) and len(ans) >= len(cand) and set(asked) != set(cand)):
                raise Bad("wrong:nickprune", "nickprune (%d days) asks for %r, should for %r" % (n, asked, cand))
        if time.gmtime()[:3] != today:
            raise runner_skip()
        self.fine(res, "nickprune")
        for x in gone:
            for k in own(self.db, x):
                del self.db[k]
        self.same("nickprune")

    def t_migrate(self):
        import dbm.dumb
        kinds = [dbm.dumb]
        try:
            import dbm.ndbm
            kinds.append(dbm.ndbm)
        except ImportError:
            pass
        src = os.path.join(self.dir, "old%d" % self.files)
        d = self.r.choice(kinds).open(src, "c")
        small = {k: v for k, v in self.db.items() if len(v) < 500}
        for k, v in small.items():
            d[k] = v
        d.close()
        k = self.r.randrange(4)
        dst = src if k < 2 else src + ".to"
        if k == 3:
            Path(dst + ".db").write_bytes(dump({b"other.nick": b"other"}))
        args = [src] if dst == src else [src, "-o", dst]
        if self.r.random() < .5:
            before = {p.name: p.read_bytes() for p in Path(self.dir).glob("old*")}
            for mode in self.r.sample([1, 2, 3], 2):
                for at in self.r.sample(range(1, 7), 2):
                    res = self.tool("dbm2icbdb", *args, stdin=b"y\n", fault=(mode, at))
                    was = before.get(os.path.basename(dst) + ".db")
                    now = Path(dst + ".db").read_bytes() if os.path.exists(dst + ".db") else None
                    if now != was and parse(dst + ".db") != small:
                        raise Bad("torn-migration", "%s stopped at call %d (mode %d): what was in %s.db is gone" % (self.log[-1], at, mode, dst))
                    if res[0] == 0 and parse(dst + ".db") != small:
                        raise Bad("claimed", "%s claims success, the new database is not there" % self.log[-1])
                    for p in Path(self.dir).glob("old*"):
                        p.unlink()
                    for n, x in before.items():
                        Path(self.dir, n).write_bytes(x)
        res = self.tool("dbm2icbdb", *args, stdin=b"y\n")
        self.fine(res, "dbm2icbdb")
        self.same("dbm2icbdb", db=small, path=dst + ".db")
        for p in Path(self.dir).glob("old*"):
            p.unlink()

    def t_broken_output(self):
        """whoever reads the output goes away, or it is interrupted, in between"""
        name, args, stdin, after = getattr(self, self.r.choice(["import_op", "import_op", "del_op"]))()
        before = Path(self.path).read_bytes() if os.path.exists(self.path) else None
        if self.r.random() < .5 or name != "dbimport":
            with open("/dev/full", "wb") as full:
                res = self.tool(name, *args, stdin=stdin, stdout=full)
            k = "no room for the output"
        else:
            res = self.tool(name, *args, stdin=stdin, interrupt=True)
            k = "interrupted"
        self.counts[k] = self.counts.get(k, 0) + 1
        got = parse(self.path)
        if got != self.db and got != after:
            raise Bad("torn", "%s, %s: the database is neither as before nor as after" % (self.log[-1], k))
        if before is None:
            if os.path.exists(self.path):
                os.unlink(self.path)
        else:
            self.put(before)

    def t_damaged(self):
        """a file cut short or of another kind is refused and left alone"""
        b = dump(self.db)
        x = bytearray(b[:self.r.randrange(len(b))]) if self.r.random() < .7 else bytearray(b)
        if len(x) == len(b):
            x[self.r.randrange(4)] ^= 1 << self.r.randrange(8)
        self.put(x)
        for op in (self.set_op(), self.del_op(), ("catdb", [], b"", None), ("countdb", [], b"", None), ("dbexport", [], b"", None)):
            res = self.tool(op[0], *op[1], stdin=op[2])
            if Path(self.path).read_bytes() != bytes(x):
                raise Bad("damaged-changed", "%s changed a damaged file" % self.log[-1])
            if res[0] == 0:
                raise Bad("damaged-accepted", "%s accepted a file cut short or of another kind: %r" % (self.log[-1], res[1][:200]))
        self.put(b)

    def t_fault(self):
        """ended, or failing, at one of its calls"""
        op = getattr(self, self.r.choice(["set_op", "set_op", "del_op", "import_op", "mk_op"]))()
        before = Path(self.path).read_bytes() if os.path.exists(self.path) else None
        for mode in self.r.sample([1, 1, 2, 3], 2):
            for n in self.r.sample(range(1, 6), 3):
                if before is None:
                    if os.path.exists(self.path):
                        os.unlink(self.path)
                else:
                    self.put(before)
                res = self.tool(op[0], *op[1], stdin=op[2], fault=(mode, n))
                got = parse(self.path)
                k = {1: "ended before a call", 2: "ended within a call", 3: "failing call"}[mode] if res[0] else "fault beyond its calls"
                self.counts[k] = self.counts.get(k, 0) + 1
                if got != self.db and got != op[3]:
                    raise Bad("torn", "%s with call %d %s: the database is neither as before nor as after: %s" %
                              (self.log[-1], n, k, got if isinstance(got, str) else [x for x in set(got) | set(op[3]) if got.get(x) != op[3].get(x)][:5]))
                if res[0] == 0 and got != op[3]:
                    raise Bad("claimed", "%s with call %d failing claims success, the database is as before" % (self.log[-1], n))
        if before is not None:
            self.put(before)
        elif os.path.exists(self.path):
            os.unlink(self.path)

    def serve(self):
        """the server on what is there now"""
        got = parse(self.path)
        w = world.World(build.BUILD / "asan" / "cm" / "server" / "icbd", keep_dir=self.dir)
        try:
            w.m.db = dict(got)
            w.m.put(b"server", b"signon", w.m.stamp())
            i = 0
            for x in sorted(k[:-5].decode() for k in got if k.endswith(b".nick")):
                pw = got.get(x.encode() + b".password", b"")
                if x in ("server", "admin") or len(pw) > 12 or b"." in x.encode():
                    continue
                w.do(["conn", 1, False])
                w.do(["login", i, "probe", x, "1", pw.decode("latin1")])
                w.do(["cmd", i, "m", "server whois " + x])
                w.do(["cmd", i, "m", "server read"])
                i += 1
                if i == 4:
                    break
            w.do(["conn", 1, False])
            w.do(["login", i, "probe", "zzz", "1", ""])
            w.do(["cmd", i, "p", "pw"])
            if parse(self.path) != w.m.db:
                raise Bad("server-ignores", "after %s: what is registered with the server is not in the file" % self.log[-1])
            self.db = dict(w.m.db)
            self.counts["registrations used by the server"] = self.counts.get("registrations used by the server", 0) + i
            self.counts["servers started"] = 1
        finally:
            w.stop()


class runner_skip(Exception):
    pass


W = dict(cat=2, count=1, find=3, set=4, mk=1, export=2, prune=4, migrate=2, big=.7, damaged=1, fault=2, broken_output=2, **{"del": 4, "import": 2})


def one(a):
    sc, so, n = a
    res = dict(ok=True, sc=sc, counts={}, log=[])
    c = Case(sc, so)
    try:
        for _ in range(n):
            getattr(c, "t_" + c.r.choices(list(W), list(W.values()))[0])()
        if sc["server"]:
            c.serve()
    except runner_skip:
        pass
    except Bad as e:
        res.update(ok=False, kind="bad", key=e.key, detail=str(e))
    except Exception as e:
        k = runner.classify(e, None)
        if k is None:
            res.update(ok=False, kind="harness", key="harness", detail=traceback.format_exc())
        else:
            res.update(ok=False, kind=k[0], key=k[1], detail=k[2])
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    res.update(counts=c.counts, log=c.log[-12:], size=len(c.db))
    return res


def shim():
    d = build.BUILD / "harness"
    d.mkdir(parents=True, exist_ok=True)
    so = d / ("toolshim.%d.so" % os.getpid())
    build.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", str(so), str(build.VERIF / "harness" / "toolshim.c"), "-ldl"])
    return so


def run(ctx):
    build.build("asan")
    so = shim()
    n, steps = ctx.pick((160, 10), (4000, 16))
    jobs = [(dict(seed="C29/%d/%d" % (ctx.seed, k), server=k % 5 == 0, locale=["C.UTF-8", "C", "POSIX"][k % 3]), str(so), steps) for k in range(n)]
    try:
        with mp.Pool(runner.JOBS) as pool:
            for res in pool.imap_unordered(one, jobs):
                ctx.evaluations += sum(res["counts"].values())
                for k, v in res["counts"].items():
                    ctx.count(k, v)
                if res["ok"]:
                    ctx.case(res["sc"]["seed"])
                    if len(ctx.samples) < 3:
                        ctx.samples.append(dict(last_calls=res["log"]))
                    continue
                if res["kind"] == "harness":
                    pool.terminate()
                    raise RuntimeError(res["detail"])
                if one((res["sc"], str(so), steps))["ok"]:
                    ctx.unconfirmed.append(res["detail"][:500])
                    continue
                ctx.violation(res["key"], res["detail"], dict(scenario=res["sc"], steps=steps, calls=res["log"]))
                if len(ctx.viol) >= 3:
                    pool.terminate()
                    break
    finally:
        so.unlink()
    ctx.rules.append("Random databases (names that are prefixes of others, values that are no UTF-8 or hold the separators, mailboxes, dates around the limits) and %d random calls of the tools each, compared "
                     "with a map after every call; calls that change files ended, cut short or failing; damaged files; the real server started on the result. Non-trivial: every history; "
                     "distinct by seed." % steps)
    ctx.assumptions.append("Values hold no line breaks, names given to finddb and setdb are in lower case, and the server does not run meanwhile.")


def replay(d):
    build.build("asan")
    so = shim()
    try:
        r = one((d["scenario"], str(so), d["steps"]))
    finally:
        so.unlink()
    print("held" if r["ok"] else "reproduced", r.get("detail", ""))
    return 0 if r["ok"] else 1
