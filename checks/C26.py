"""Readers that stall: their stream against that of one that does not."""
import hashlib, multiprocessing as mp, random, time, traceback
import build, icb, runner, world
from icb import frame

QUEUE = 10       # packets that wait for a client before more are refused (MAX_SENDPACKET_QUEUE)
PATIENCE = 5     # fruitless writes in a row before one may be given up on (MAX_SENDPACKET_RETRIES is 10)


class Bad(Exception):
    def __init__(self, key, text):
        self.key = key
        super().__init__(text)


class Reader:
    def __init__(self, srv, cl, name):
        self.srv, self.cl, self.name = srv, cl, name
        self.data = b""
        self.acc = 0         # bytes the connection has accepted so far

    def read(self, n=None):
        got = 0
        while not self.cl.eof and (n is None or got < n):
            try:
                d = self.cl.sock.recv(65536 if n is None else min(4096, n - got))
            except OSError as e:
                import ssl
                if isinstance(e, (BlockingIOError, ssl.SSLWantReadError, ssl.SSLWantWriteError)):
                    break
                self.cl.eof = True
                break
            if not d:
                self.cl.eof = True
                break
            self.data += d
            got += len(d)
        return got


def frames(data):
    out, o = [], 0
    while o < len(data):
        n = data[o]
        if n == 0:
            raise Bad("framing", "zero length byte at offset %d" % o)
        if o + 1 + n > len(data):
            return out, data[o:]
        out.append((data[o + 1:o + 1 + n], o + 1 + n))
        o += 1 + n
    return out, b""


def execute(sc):
    r = random.Random(sc["seed"])
    srv = None
    res = dict(ok=True, sc=sc, msgs=0, gaps=0, dropped=0, stalled=0, maxpend=0, partial=0, tries=99)
    try:
        files = {"icbd.pem": icb.test_pem(build.BUILD)} if sc["tls"] else {}
        srv = icb.Server(build.BUILD / "asan" / "cm" / "server" / "icbd", files=files, tls=sc["tls"])
        srv.sndbuf(sc["sndbuf"])
        srv.record(2)
        acc = {}
        tries = {}           # per descriptor: where each write left its stream

        def bar():
            st = srv.barrier()
            for e in srv.trace:
                if e[0] == "W":
                    acc[e[1]] = acc.get(e[1], 0) + e[2]
                if e[0] in "WF":
                    tries.setdefault(e[1], []).append(acc.get(e[1], 0))
            srv.trace = []
            return st
        nread = sc["readers"]
        cls = []
        for k in range(nread + 1 + sc["senders"]):
            slow = 0 < k <= nread
            c = srv.connect(1, sc["tls"] and (slow and r.random() < .6), rcvbuf=sc["rcvbuf"] if slow else None)
            bar()
            c.send("a", "u%d" % k, "n%d" % k, "dev", "login", "")
            bar()
            if k > nread:
                c.send("h", "echoback", "on" if r.random() < .3 else "off")
            cls.append(c)
            bar()
        for c in cls:
            for _ in range(3):
                bar()
                c.take()
        srv.record(2)
        acc.clear()
        tries.clear()
        rd = [Reader(srv, c, "n%d" % k) for k, c in enumerate(cls[:nread + 1])]
        fd = [c.fd for c in cls]
        senders = cls[nread + 1:]
        num = 0
        sent = []            # per message: accepted bytes of each reader just before it (or before its burst)
        mode = [None] * (nread + 1)
        for step in range(sc["steps"]):
            for k in range(1, nread + 1):
                if r.random() < .08:
                    mode[k] = r.choice(["stall", "stall", "dribble", "free", "one"])
            if r.random() < .05:
                srv.faults(0, r.choice([0, 1, 9, 100]), 0, r.choice([0, 30, 60]), r.randrange(1 << 30))
            elif r.random() < .05:
                srv.faults()
            burst = r.choice([1, 1, 1, 2, 4])
            at = [acc.get(f, 0) for f in fd[:nread + 1]]
            if burst > 1:
                srv.hold()
            for _ in range(burst):
                s = r.choice(senders)
                text = "%d " % num + chr(97 + num % 26) * r.choice([1, 10, 100, 200, 230, 230])
                if r.random() < .1:
                    for k in range(nread + 1):
                        pass
                s.send("b", text[:230])
                sent.append(at)
                num += 1
            bar()
            rd[0].read()
            for s in senders:
                s.take()
            for k in range(1, nread + 1):
                m = mode[k]
                if m in (None, "free"):
                    rd[k].read()
                elif m == "dribble":
                    rd[k].read(r.choice([1, 20, 300, 2000]))
                elif m == "one" and r.random() < .1:
                    rd[k].read(1)
        srv.faults()
        # everyone catches up
        # (with a full window the connection itself may take a while to go on)
        last, end = time.time(), time.time() + 20
        while time.time() < end:
            bar()
            if sum(x.read() for x in rd):
                last = time.time()
                continue
            there = all(x.cl.eof or (len(x.data) >= acc.get(f, 0) and not frames(x.data)[1]) for x, f in zip(rd, fd))
            if time.time() - last > (.03 if there else 1.5):
                break
            time.sleep(0.001)
        at = [acc.get(f, 0) for f in fd[:nread + 1]]
        senders[0].send("b", "%d fin" % num)
        sent.append(at)
        num += 1
        end = time.time() + 5
        while time.time() < end:
            bar()
            for x in rd:
                x.read()
            if all(x.cl.eof or b" fin" in x.data for x in rd):
                break
            time.sleep(0.002)
        res["msgs"] = num
        ref, rest = frames(rd[0].data)
        if rest:
            raise Bad("framing", "the undisturbed reader ends with part of a packet")
        order = [p for p, _ in ref if p[:1] == b"b"]
        if len(order) != num:
            raise Bad("lost", "%d messages sent, the undisturbed reader got %d" % (num, len(order)))
        idx = {p: i for i, p in enumerate(order)}
        if len(idx) != num:
            raise Bad("repeated", "the undisturbed reader got a message twice")
        # a message may be processed in another order within its burst only
        for k in range(1, nread + 1):
            x = rd[k]
            fr, rest = frames(x.data)
            pos = -1
            ends = []
            lost = []
            for p, end in fr:
                if p[:1] != b"b":
                    if p[:1] == b"d":
                        ends.append(end)
                        continue      # (someone else was dropped)
                    raise Bad("wrong", "reader %d got %r" % (k, p[:80]))
                i = idx.get(p)
                if i is None:
                    raise Bad("mixed-up", "reader %d got a packet nobody sent: %r" % (k, p[:120]))
                if i <= pos:
                    raise Bad("order", "reader %d got message %d after %d" % (k, i, pos))
                lost += [(j, len(ends)) for j in range(pos + 1, i)]
                pos = i
                ends.append(end)
            if x.cl.eof:
                res["dropped"] += 1
                # whoever still takes packets is not given up on
                t = tries.get(fd[k], [])
                done = {0} | set(e for _, e in fr)
                run = 0
                while run < len(t) and not (t[-1 - run] in done and t[-1 - run] != (t[-2 - run] if run + 1 < len(t) else 0)):
                    run += 1
                res["tries"] = min(res["tries"], run)
                if run < PATIENCE:
                    raise Bad("dropped", "reader %d was disconnected %d fruitless writes after its connection took a packet" % (k, run))
                if rest and pos + 1 < num and not any(frame_of(order[j]).startswith(rest) for j in range(pos + 1, num)) and rest[1:2] not in (b"", b"d"):
                    raise Bad("mixed-up", "reader %d ends with bytes that belong to no packet: %r" % (k, rest[:60]))
            else:
                if rest:
                    raise Bad("framing", "reader %d has part of a packet and no more comes: %r" % (k, rest[:60]))
                if pos != num - 1:
                    raise Bad("lost", "reader %d caught up but did not get the last messages (%d of %d)" % (k, pos, num - 1))
            for j, before in lost:
                res["gaps"] += 1
                # what was waiting when message j came?
                pend = sum(1 for e in ends[:before] if e > sent[number(order[j])][k])
                res["maxpend"] = max(res["maxpend"], pend)
                if pend < QUEUE:
                    raise Bad("lost", "reader %d did not get message %d though only %d packets were waiting for it" % (k, j, pend))
            if any(True for j, _ in lost) or x.cl.eof:
                res["stalled"] += 1
        res["partial"] = srv.stats["injected"]
    except Bad as e:
        res.update(ok=False, kind="bad", key=e.key, detail=str(e))
    except Exception as e:
        class W:
            pass
        W.srv = srv
        c = runner.classify(e, W if srv else None)
        res.update(dict(ok=False, kind=c[0], key=c[1], detail=c[2]) if c else dict(ok=False, kind="harness", key="harness", detail=traceback.format_exc()))
    finally:
        if srv is not None:
            srv.stop()
    return res


def number(p):
    return int(p.split(b"\1")[1].split(b" ")[0])


def frame_of(p):
    return bytes([len(p)]) + p


def scenario(seed, k):
    r = random.Random("C26/%s/%d" % (seed, k))
    return dict(seed="C26/%s/%d/x" % (seed, k), tls=k % 3 == 2, sndbuf=r.choice([2304, 4608, 10000]), rcvbuf=r.choice([1024, 2304, 8192]), readers=r.choice([1, 2, 3]),
                senders=r.choice([1, 2, 3]), steps=r.choice([120, 250]))


def run(ctx):
    build.build("asan")
    n = ctx.pick(500, 8000)
    with mp.Pool(runner.JOBS) as pool:
        for res in pool.imap_unordered(execute, [scenario(ctx.seed, k) for k in range(n)]):
            ctx.evaluations += 1
            if res["ok"]:
                for k in ("msgs", "gaps", "dropped", "stalled", "partial"):
                    ctx.count({"msgs": "messages", "gaps": "refused with a full queue", "dropped": "disconnected readers", "stalled": "readers that fell behind", "partial": "interfered writes"}[k], res[k])
                if res["stalled"]:
                    ctx.case(res["sc"]["seed"])
                if len(ctx.samples) < 3:
                    ctx.samples.append(res["sc"])
                continue
            if res["kind"] == "harness":
                pool.terminate()
                raise RuntimeError(res["detail"])
            ok = res["kind"] == "sanitizer"
            for _ in range(3):
                ok = ok or not execute(res["sc"])["ok"]
            if not ok:
                ctx.unconfirmed.append(res["detail"])
                continue
            ctx.violation(res["key"], res["detail"], dict(scenario=res["sc"]))
            if len(ctx.viol) >= 3:
                pool.terminate()
                break
    ctx.rules.append("Numbered messages to a group with an undisturbed reader and readers that stall, dribble or resume at random, small socket buffers, interfered writes, plain and TLS. The "
                     "stalled readers' streams must consist of whole packets the undisturbed reader got, in order, none twice; one may be missing only if %d packets were waiting for the reader "
                     "(from the recorded writes), and whoever is still connected must have everything in the end, and whoever was disconnected must have left %d writes in a row without taking a packet. Non-trivial: a reader really fell behind; distinct by scenario." % (QUEUE, PATIENCE))


def replay(d):
    build.build("asan")
    r = execute(d["scenario"])
    print("held" if r["ok"] else "reproduced", r.get("detail", ""))
    return 0 if r["ok"] else 1
