"""TLS handshakes and streams in pieces of any size, with either protocol version, small buffers and certificates of any size."""
import multiprocessing as mp, os, random, socket, ssl, subprocess, tempfile, shutil, time, traceback
from pathlib import Path
import build, icb, runner
from icb import frame

_big = {}


class Bad(Exception):
    def __init__(self, key, text):
        self.key = key
        super().__init__(text)


def pem(names):
    """a certificate for that many names"""
    if not names:
        return icb.test_pem(build.BUILD)
    if names not in _big:
        p = build.BUILD / ("icbd.%d.pem" % names)
        if not p.exists():
            t = tempfile.mkdtemp()
            try:
                subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", t + "/k", "-out", t + "/c", "-days", "3650", "-subj", "/CN=localhost", "-addext",
                                "subjectAltName=" + ",".join("DNS:host%d.example.test" % i for i in range(names))], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                tmp = p.with_suffix(".%d" % os.getpid())
                tmp.write_bytes(Path(t, "k").read_bytes() + Path(t, "c").read_bytes())
                os.replace(tmp, p)
            finally:
                shutil.rmtree(t, ignore_errors=True)
        _big[names] = p.read_bytes()
    return _big[names]


class Conn:
    """a TLS client whose bytes on the wire go in pieces"""

    def __init__(self, srv, r, sc):
        self.srv, self.r, self.sc = srv, r, sc
        self.sock = socket.socket()
        if sc["rcvbuf"]:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, sc["rcvbuf"])
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.sock.settimeout(20)
        self.sock.connect((srv.addr or "127.0.0.1", srv.tlsport))
        self.sock.setblocking(False)
        x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        x.check_hostname = False
        x.verify_mode = ssl.CERT_NONE
        x.minimum_version = x.maximum_version = {2: ssl.TLSVersion.TLSv1_2, 3: ssl.TLSVersion.TLSv1_3}[sc["version"]]
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.t = x.wrap_bio(self.i, self.o)
        self.eof, self.data, self.wire = False, b"", 0
        self.pend = b""
        self.visitor = None

    def push(self):
        self.pend += self.o.read()
        while self.pend:
            k = self.r.choice(self.sc["out"])
            p, self.pend = self.pend[:k], self.pend[k:]
            try:
                n = self.sock.send(p)
            except BlockingIOError:
                n = 0
            except OSError:
                self.eof = True
                return
            self.pend = p[n:] + self.pend
            if n == 0:
                return
            if self.r.random() < .6:
                self.srv.barrier()
            if self.visitor and self.pend and self.r.random() < .1:
                self.visitor()

    def pull(self):
        """one piece -> whether there was any"""
        try:
            d = self.sock.recv(self.r.choice(self.sc["in"]))
        except BlockingIOError:
            return False
        except OSError:
            d = b""
        if not d:
            self.eof = True
            self.i.write_eof()
            return False
        self.wire += len(d)
        self.i.write(d)
        return True

    def until(self, done, what):
        """moves bytes until done() says so; nobody else does anything meanwhile"""
        last = time.time()
        while True:
            if done():
                return
            self.push()
            self.srv.barrier()
            if self.pull():
                last = time.time()
            elif self.eof:
                if done():
                    return
                raise Bad("ended", "%s: the connection ended" % what)
            elif time.time() - last > 6:
                raise Bad("stuck", "%s: nothing happens any more after %d bytes, though everything was sent and read" % (what, self.wire))
            else:
                time.sleep(.001)

    def shake(self):
        def f():
            try:
                self.t.do_handshake()
                return True
            except (ssl.SSLWantReadError, ssl.SSLWantWriteError):
                return False
            except ssl.SSLError as e:
                raise Bad("handshake", "the handshake fails: %s" % e)
        self.until(f, "handshake")
        self.push()

    def read(self):
        try:
            while True:
                d = self.t.read(65536)
                if not d:
                    return
                self.data += d
        except (ssl.SSLWantReadError, ssl.SSLZeroReturnError):
            pass
        except ssl.SSLError as e:
            raise Bad("stream", "the stream is broken: %s" % e)

    def send(self, b):
        while b:
            k = self.r.choice(self.sc["rec"])
            self.t.write(b[:k])
            b = b[k:]
        self.push()

    def expect(self, text, what):
        def f():
            self.read()
            return text in self.data
        self.until(f, what)


class Visitors:
    """TLS connections that fail, each in its way, while others are in the middle of something"""

    def __init__(self, srv, r, sc):
        self.srv, self.r, self.n, self.held, self.kinds = srv, r, 0, [], {}
        self.sc = dict(sc, out=[16000], rec=[1000], rcvbuf=0, **{"in": [16000]})

    def hello(self):
        i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
        x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        x.check_hostname = False
        x.verify_mode = ssl.CERT_NONE
        t = x.wrap_bio(i, o)
        try:
            t.do_handshake()
        except ssl.SSLWantReadError:
            pass
        return o.read()

    def __call__(self):
        r = self.r
        if self.n >= 40:
            return
        self.n += 1
        kind = r.choice(["garbage", "plain", "hello", "cut", "record", "close", "half", "alert", "leave"])
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if kind in ("garbage", "plain", "hello", "cut"):
            s = socket.socket()
            s.settimeout(20)
            s.connect((self.srv.addr or "127.0.0.1", self.srv.tlsport))
            s.setblocking(False)
            b = {"garbage": r.randbytes(r.choice([1, 5, 6, 60, 300])), "plain": frame("a", "x", "x", "dev", "login", "")}.get(kind)
            if b is None:
                b = self.hello()
                if kind == "cut":
                    b = b[:r.randrange(1, len(b))]
                else:
                    k = r.choice([0, 1, 2, 5, 9, 10, 43, 44, 76, 77, 78, 79]) if r.random() < .5 else r.randrange(len(b))
                    b = b[:k] + bytes([b[k] ^ r.choice([1, 4, 128, 255])]) + b[k + 1:]
            s.send(b)
        else:
            c = Conn(self.srv, r, self.sc)
            c.shake()
            s = c.sock
            if kind == "record":
                b = r.randbytes(r.choice([17, 40, 200]))
                s.send(bytes([r.choice([20, 21, 22, 23, 23, 23, 99]), 3, 3]) + len(b).to_bytes(2, "big") + b)
            elif kind == "half":
                c.t.write(frame("b", "never said"))
                b = c.o.read()
                s.send(b[:r.randrange(1, len(b))])
            elif kind == "alert":
                s.send(b"\x15\x03\x03\x00\x02\x02\x28")
            elif kind == "leave":
                try:
                    c.t.unwrap()
                except ssl.SSLError:
                    pass
                s.send(c.o.read())
        if r.random() < .7:
            self.srv.barrier()
        if r.random() < .3:
            self.held.append(s)      # stays
            return
        if r.random() < .5:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
        s.close()
        if r.random() < .7:
            self.srv.barrier()


def execute(sc):
    r = random.Random(sc["seed"])
    res = dict(ok=True, sc=sc, wire=0, waits=0, visitors={})
    srv = None
    try:
        srv = icb.Server(build.BUILD / "asan" / "cm" / "server" / "icbd", files={"icbd.pem": pem(sc["names"]), "motd": b"hello\n" * 5}, tls=True, loglevel=9)
        srv.sndbuf(sc["sndbuf"])
        p = srv.connect(1)
        srv.barrier()
        p.send("a", "plain", "plain", "dev", "login", "")
        srv.barrier()
        cs = []
        v = Visitors(srv, r, sc) if sc["visitors"] else None
        for k in range(sc["clients"]):
            c = Conn(srv, r, sc)
            c.visitor = v
            c.shake()
            c.expect(b"\1", "banner")
            c.send(frame("a", "u%d" % k, "n%d" % k, "dev", "login", ""))
            c.expect(b"Status\1You are now in group dev", "login")
            cs.append(c)
            srv.barrier()
            p.take()
            for j in range(3):
                text = "%d/%d " % (k, j) + "x" * r.choice([1, 100, 220])
                c.send(frame("b", text))
                for _ in range(400):
                    srv.barrier()
                    if any(text.encode() in b"".join(map(bytes, [x if isinstance(x, bytes) else repr(x).encode() for x in p.take()])) for _ in (1,)):
                        break
                    c.push()
                    time.sleep(.002)
                else:
                    raise Bad("lost", "what the TLS client sent did not arrive")
                back = "back%d/%d " % (k, j) + "y" * r.choice([1, 100, 220])
                p.send("b", back)
                srv.barrier()
                if v and r.random() < .5:
                    v()
                c.expect(b"plain\1" + back.encode() + b"\0", "message")
            res["wire"] += c.wire
            for x in cs[:-1]:
                x.pull()
        for k, c in enumerate(cs):      # all are still there
            c.send(frame("b", "still %d" % k))
            p.send("b", "still?%d" % k)
            c.expect(b"plain\1still?%d\0" % k, "message at the end")
        if v:
            res["visitors"] = v.kinds
        res["waits"] = sum(q.read_text(errors="replace").count("SSL_ERROR_WANT_WRITE") for q in Path(srv.dir).glob("icbd.log*"))
    except Bad as e:
        res.update(ok=False, kind="bad", key=e.key, detail=str(e))
    except Exception as e:
        class W:
            pass
        W.srv = srv
        c = runner.classify(e, W if srv else None)
        res.update(dict(ok=False, kind=c[0], key=c[1], detail=c[2]) if c else dict(ok=False, kind="harness", key="harness", detail=traceback.format_exc()))
    finally:
        if srv is not None:
            srv.stop()
    return res


def scenario(seed, k):
    r = random.Random("C20/%s/%d/pieces" % (seed, k))
    return dict(seed="C20/%s/%d/pieces" % (seed, k), version=r.choice([2, 3]), names=[0, 30, 300][k % 3], sndbuf=r.choice([0, 2304, 4608]), rcvbuf=r.choice([0, 1024, 2304]),
                out=r.choice([[1, 2, 7], [50, 100], [16000], [1, 100, 16000]]), **{"in": r.choice([[40, 99], [200, 900], [16000], [1, 100, 16000]])}, rec=r.choice([[1, 3], [20, 300], [1000]]),
                clients=r.choice([1, 2, 3]), visitors=r.random() < .6)


def run(ctx):
    build.build("asan")
    for k in (0, 30, 300):
        pem(k)
    n = ctx.pick(400, 8000)
    with mp.Pool(runner.JOBS) as pool:
        for res in pool.imap_unordered(execute, [scenario(ctx.seed, k) for k in range(n)]):
            ctx.evaluations += 1
            if res["ok"]:
                ctx.count("pieces: clients", res["sc"]["clients"])
                ctx.count("pieces: bytes received", res["wire"])
                ctx.count("pieces: handshakes that had to wait to write", res["waits"])
                for x, m in res["visitors"].items():
                    ctx.count("pieces: failing neighbours: " + x, m)
                ctx.count("pieces: TLS 1.%d" % res["sc"]["version"])
                ctx.case(res["sc"]["seed"])
                continue
            if res["kind"] == "harness":
                pool.terminate()
                raise RuntimeError(res["detail"])
            if res["kind"] != "sanitizer" and execute(res["sc"])["ok"] and execute(res["sc"])["ok"]:
                ctx.unconfirmed.append(res["detail"][:500])
                continue
            ctx.violation(res["key"], res["detail"], dict(scenario=res["sc"]))
            if len(ctx.viol) >= 3:
                pool.terminate()
                break
    ctx.rules.append("Handshakes (TLS 1.2 and 1.3, certificates of 1 to 10 KB) and conversations with a plain client whose bytes on the wire go in pieces of any size through small buffers: each has to "
                     "get through with nobody else doing anything, or while other connections fail their handshake, send records that "
                     "are none, or break off in any way. Distinct by scenario.")


def replay(d):
    build.build("asan")
    r = execute(d["scenario"])
    print("held" if r["ok"] else "reproduced", r.get("detail", ""))
    return 0 if r["ok"] else 1
