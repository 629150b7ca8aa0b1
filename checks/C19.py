"""Misbehaving clients next to ones that want to be served."""
import multiprocessing as mp, os, random, socket, time, traceback
import build, fuzz, icb, runner, world
from icb import frame


class Bad(Exception):
    def __init__(self, key, text):
        self.key = key
        super().__init__(text)


class Zoo:
    def __init__(self, sc):
        self.sc = sc
        self.r = random.Random(sc["seed"])
        files = {"icbd.pem": icb.test_pem(build.BUILD)} if sc["tls"] else {}
        self.srv = icb.Server(build.BUILD / sc["flavour"] / "cm" / "server" / "icbd", files=files, tls=sc["tls"])
        if sc.get("sndbuf"):
            self.srv.sndbuf(sc["sndbuf"])
        self.cap = sc["cap"]
        self.bad = []            # misbehaving connections (raw sockets or Clients)
        self.n = dict(probes=0, connects=0, refused=0, turns=0, floods=0, idle=0, idlepolls=0)
        self.kinds = set()
        self.what = "start"

    def bar(self):
        st = self.srv.barrier()
        if st["busy"]:
            # is it still at it, with nothing new coming in?
            for _ in range(3):
                st = self.srv.barrier()
                if not st["busy"]:
                    return st
            raise Bad("spin", "the event loop never comes to rest (%s)" % self.what)
        return st

    def user(self, k, tls=False):
        c = self.srv.connect(1, tls)
        self.bar()
        c.send("a", "u%d" % k, "p%d" % k, "good", "login", "")
        for _ in range(40):
            self.bar()
            got = c.take()
            if any(p[:1] == b"d" for p in got) or any(p[:1] == b"a" for p in got):
                return c
            if c.eof:
                return c
            time.sleep(.002)
        raise Bad("not-served", "a login was not answered (%s)" % self.what)

    def probe(self, c, why=""):
        c.take()
        if c.eof:
            raise Bad("dropped", "a well-behaved client was disconnected (%s)" % self.what)
        c.send("h", "v", "")
        self.n["probes"] += 1
        for k in range(60):
            self.bar()
            if c.take():
                return
            time.sleep(.002 * k)
        raise Bad("not-served", "a well-behaved client got no answer (%s)" % self.what)

    def rawconn(self, tls=False):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2304)
        s.settimeout(5)
        s.connect((self.srv.addr, self.srv.tlsport if tls else self.srv.port))
        s.setblocking(False)
        self.bad.append(s)
        self.n["connects"] += 1
        return s

    def send(self, s, data):
        try:
            return s.send(data)
        except OSError:
            return 0

    # -- misbehaviour
    def do_partial(self):
        s = self.rawconn()
        self.bar()
        d = frame("a", "x", "x%d" % self.r.randrange(99), "bad", "login", "")
        self.send(s, self.r.choice([b"", d[:1], d[:4], d[:-1], b"\xff" + b"h" * 200, d + b"\x20hm"]))

    def do_nonreader(self):
        s = self.rawconn()
        self.bar()
        self.send(s, frame("a", "nr", "nr%d" % self.r.randrange(999), "good", "login", ""))
        self.bar()
        for _ in range(self.r.choice([1, 5, 30])):
            self.send(s, self.r.choice([frame("h", "w", ""), frame("h", "s_help", ""), frame("h", "m", "server ?")]))
            self.bar()

    def do_talk(self):
        # output for those who do not read
        for _ in range(self.r.choice([3, 20, 60])):
            self.good[0].send("b", "z" * 220)
            self.bar()
        for c in self.good:
            c.take()

    def do_flood(self):
        """a lot at once from one client, a single packet from another at the same time"""
        self.n["floods"] += 1
        f = self.user(500 + self.r.randrange(400))
        f.take()
        if f.eof:
            f.close()
            return
        g = self.r.choice(self.good)
        g.take()
        n = 600
        self.srv.record(1)
        self.srv.hold()
        f.send_raw(self.r.choice([frame("n", ""), frame("h", "v", "x"), frame("b", "y")]) * n)
        g.send("h", "v", "")
        self.bar()
        tr, self.srv.trace = self.srv.trace, []
        self.srv.record(0)
        before = after = 0
        seen = False
        turns = 0
        for e in tr:
            if e[0] == "P":
                turns += not seen
            elif e[0] == "R" and e[1] == g.fd:
                seen = True
            elif e[0] == "R" and e[1] == f.fd:
                if seen:
                    after += e[2]
                else:
                    before += e[2]
        self.n["turns"] = max(self.n["turns"], turns)
        if not g.tls and (not seen or before > (before + after) // 2):
            raise Bad("unfair", "a client's packet was read only after %d of %d bytes of another's flood" % (before, before + after))
        if self.r.random() < .5:
            self.bad.append(f.sock)
        else:
            f.close()

    def do_mass(self):
        n = self.r.choice([5, self.cap, self.cap + 12]) if self.cap < 100 else self.r.choice([10, 60])
        new = []
        for _ in range(n):
            try:
                new.append(self.rawconn(self.sc["tls"] and self.r.random() < .3))
            except OSError:
                raise Bad("not-served", "a connection could not be made (%s)" % self.what)
        self.bar()
        if self.r.random() < .8:
            for s in new:
                self.hang(s)

    def do_tls(self):
        if not self.sc["tls"]:
            return
        s = self.rawconn(True)
        self.bar()
        hello = bytes.fromhex("1603010200010001fc0303") + bytes(range(32)) * 4
        self.send(s, self.r.choice([b"", b"\x16", hello[:5], hello, b"GET / HTTP/1.0\r\n\r\n", frame("a", "x", "x", "bad", "login", ""), os.urandom(0) + b"\x15\x03\x01\x00\x02\x02\x28"]))

    def do_junk(self):
        s = self.rawconn(self.sc["tls"] and self.r.random() < .3)
        self.bar()
        self.send(s, fuzz.Fuzz(self.r).junk(self.r.choice([1, 100, 900])))

    def hang(self, s):
        if s in self.bad:
            self.bad.remove(s)
        k = self.r.randrange(3)
        try:
            if k == 0:
                import struct
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                s.close()
            elif k == 1:
                s.close()
            else:
                s.shutdown(socket.SHUT_WR)
                self.bar()
                s.close()
        except OSError:
            pass

    def do_hang(self):
        for s in self.r.sample(self.bad, min(len(self.bad), self.r.choice([1, 1, 3]))):
            self.hang(s)

    def do_time(self):
        self.srv.advance(self.r.choice([.5, 1, 30, 61, 3700]))

    def do_idle(self):
        """nothing to do: it must be asleep"""
        self.bar()
        a = self.bar()["polls"]
        time.sleep(.03)
        b = self.bar()["polls"]
        self.n["idle"] += 1
        self.n["idlepolls"] = max(self.n["idlepolls"], b - a)
        if b - a > 200:
            raise Bad("spin", "%d turns of the event loop with nothing to do (%s)" % (b - a, self.what))

    def run(self):
        self.good = [self.user(k, self.sc["tls"] and k % 2 == 1) for k in range(2)]
        for c in self.good:
            if c.eof:
                raise Bad("not-served", "a client was refused on an empty server")
        acts = [k[3:] for k in dir(self) if k.startswith("do_")]
        hist = []
        for _ in range(self.sc["steps"]):
            a = self.r.choice(acts)
            hist.append(a)
            self.what = "after " + ", ".join(hist[-4:])
            self.kinds.add(tuple(hist[-2:]))
            if len(self.bad) > self.cap + 20:
                a = "hang"
            getattr(self, "do_" + a)()
            self.bar()
            self.probe(self.r.choice(self.good))
            while len(self.bad) > self.cap - 8 and self.cap < 100:
                # room for the flood's client
                self.hang(self.bad[0])
        # everyone goes: every place is free again
        self.what = "when all misbehaving clients had left, after " + ", ".join(hist[-4:])
        for s in list(self.bad):
            self.hang(s)
        for _ in range(3):
            self.bar()
        for c in self.srv.clients:
            if c not in self.good:
                c.close()
        for _ in range(3):
            self.bar()
            time.sleep(.001)
        st = self.bar()
        live = st["accepts"] - st["closes"]
        if live != len(self.good):
            raise Bad("kept", "%d connections are held for %d clients (%s)" % (live, len(self.good), self.what))
        new = [self.user(100 + k) for k in range(min(self.cap - 14, 40))]
        for c in new:
            self.n["refused"] += int(c.eof)
            if c.eof:
                raise Bad("no-place", "a new client was refused though all places are free again (%s)" % self.what)
        for c in self.good + new:
            self.probe(c)


def execute(sc):
    res = dict(ok=True, sc=sc, n={}, kinds=set())
    z = None
    try:
        z = Zoo(sc)
        z.run()
        res.update(n=z.n, kinds=z.kinds)
    except Bad as e:
        res.update(ok=False, kind="bad", key=e.key, detail=str(e))
    except Exception as e:
        c = runner.classify(e, z)
        res.update(dict(ok=False, kind=c[0], key=c[1], detail=c[2]) if c else dict(ok=False, kind="harness", key="harness", detail=traceback.format_exc()))
    finally:
        if z is not None:
            for s in z.bad:
                try:
                    s.close()
                except OSError:
                    pass
            z.srv.stop()
    return res


def scenario(seed, k):
    r = random.Random("C19/%s/%d" % (seed, k))
    small = k % 2 == 0
    return dict(seed="C19/%s/%d/x" % (seed, k), flavour="small" if small else "asan", cap=24 if small else 255, tls=k % 4 >= 2, steps=40, sndbuf=r.choice([0, 4608]))


def run(ctx):
    for f in ("asan", "small"):
        build.build(f)
    n = ctx.pick(96, 3000)
    kinds = set()
    with mp.Pool(runner.JOBS) as pool:
        for res in pool.imap_unordered(execute, [scenario(ctx.seed, k) for k in range(n)]):
            ctx.evaluations += 1
            if res["ok"]:
                kinds |= res["kinds"]
                for k, v in res["n"].items():
                    if k in ("turns", "idlepolls"):
                        ctx.counts["most " + k] = max(ctx.counts.get("most " + k, 0), v)
                    else:
                        ctx.count(k, v)
                if res["n"]["probes"] > 20:
                    ctx.case(res["sc"]["seed"])
                if len(ctx.samples) < 3:
                    ctx.samples.append(res["sc"])
                continue
            if res["kind"] == "harness":
                pool.terminate()
                raise RuntimeError(res["detail"])
            ok = res["kind"] == "sanitizer"
            for _ in range(3):
                ok = ok or not execute(res["sc"])["ok"]
            if not ok:
                ctx.unconfirmed.append(res["detail"])
                continue
            ctx.violation(res["key"], res["detail"], dict(scenario=res["sc"]))
            if len(ctx.viol) >= 3:
                pool.terminate()
                break
    ctx.count("distinct pairs of misbehaviour in a row", len(kinds))
    ctx.rules.append("Random sequences of misbehaviour (partial packets, clients that do not read, floods, more connections than places, stalled or broken TLS handshakes, junk, resets, half-closes) "
                     "on servers with 24 and 255 places; after each the event loop must come to rest and a well-behaved client be answered; with nothing to do the loop must sleep; a "
                     "flood may not delay another client's packet behind half of it; in the end every place must be free again. Distinct by scenario.")


def replay(d):
    for f in ("asan", "small"):
        build.build(f)
    r = execute(d["scenario"])
    print("held" if r["ok"] else "reproduced", r.get("detail", ""))
    return 0 if r["ok"] else 1
