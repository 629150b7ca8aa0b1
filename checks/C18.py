"""Whatever clients do before they go, and however they go, the server then holds as much memory and as many descriptors as before."""
import multiprocessing as mp, os, random, socket, struct, traceback
import build, fuzz, icb, runner

WARM = 2        # rounds until everything that is set up once has been
DB = (b"p", b"cp", b"write", b"rname", b"text", b"addr", b"phone", b"www", b"email", b"secure", b"nosecure", b"delete", b"read", b"delmsg")


class Bad(Exception):
    def __init__(self, key, text):
        self.key = key
        super().__init__(text)


def packet(f, db):
    """one that leaves the user database alone, unless that is wanted"""
    while True:
        p = f.packet()[0]
        l = p[1:].lower()
        if db or b"server" not in l and l[:1] != b"a" and not l[1:].split(b"\1")[0].split(b"\0")[0] in DB + (b"m", b"beep"):
            return p


def leave(r, c, how):
    if how == "reset":
        try:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
    if how == "half":
        try:
            c.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        return
    if how == "part":
        try:
            c.sock.send(bytes([200]) + b"bpart of a message")
        except OSError:
            pass
    c.close()


def round_(r, srv, f, tls, db):
    """some clients come, do things, and go -> state of the server"""
    srv.sndbuf(r.choice([0, 2304, 4608]))
    cl = []
    want = r.choice([1, 2, 4, 6])
    for step in range(r.choice([10, 40, 90])):
        if len(cl) < want and r.random() < .4:
            t = tls and r.random() < .5
            stall = r.random() < .3
            try:
                c = srv.connect(r.randrange(1, 4), t, rcvbuf=1024 if stall else None)
            except OSError:
                continue
            c.stall = stall
            srv.barrier()
            if r.random() < .9:
                c.send("a", "u%d" % r.randrange(4), r.choice(["alice", "bob", "carol", "u%d" % r.randrange(9)]), r.choice(["dev", "ops", "1"]), "login", r.choice(["", "pw", "pw"]))
            cl.append(c)
        elif cl:
            c = r.choice(cl)
            try:
                if r.random() < .25:
                    for _ in range(r.choice([1, 5, 30])):
                        c.send("b", "x" * r.choice([1, 100, 230]))
                elif db and r.random() < .2:
                    c.send("h", "p", "pw")
                elif r.random() < .1:
                    srv.faults(r.choice([0, 1, 50]), r.choice([0, 1, 50]), r.choice([0, 30]), r.choice([0, 30]), r.randrange(1 << 30))
                else:
                    c.send_raw(packet(f, db))
            except OSError:
                pass
            if r.random() < .15:
                leave(r, c, r.choice(["close", "reset", "half", "part"]))
                cl.remove(c)
        st = srv.barrier()
        for c in cl:
            if not c.stall:
                c.take()
        if r.random() < .05:
            srv.advance(r.choice([1, 30, 61, 400, 4000]))
    srv.faults()
    for c in cl:
        if r.random() < .1:
            srv.barrier()
        leave(r, c, r.choice(["close", "reset", "half", "part"]))
    for c in srv.clients:
        c.close()
    srv.clients.clear()
    for _ in range(60):
        st = srv.barrier()
        if st["accepts"] == st["closes"]:
            break
        srv.advance(2)
    return srv.barrier()


def execute(sc):
    r = random.Random(sc["seed"])
    res = dict(ok=True, sc=sc, rounds=0, conns=0)
    srv = None
    try:
        files = {"icbd.pem": icb.test_pem(build.BUILD)} if sc["tls"] else {}
        files["motd"] = b"hi\n"
        srv = icb.Server(build.BUILD / "asan" / "cm" / "server" / "icbd", files=files, tls=sc["tls"])
        f = fuzz.Fuzz(r, tls=sc["tls"], admin=False)
        hist = []
        for k in range(sc["rounds"]):
            st = round_(r, srv, f, sc["tls"], sc["db"])
            if st["accepts"] != st["closes"]:
                raise Bad("descriptor-leak", "%(accepts)d connections accepted, %(closes)d closed, all clients gone" % st)
            try:
                size = os.path.getsize(os.path.join(srv.dir, "icbdb.db"))
            except OSError:
                size = 0
            hist.append((st["heap"], size, st["fds"], st["accepts"]))
        res.update(rounds=len(hist), conns=hist[-1][3], hist=hist)
        h0, s0, f0 = hist[WARM][:3]
        h1, s1, f1 = hist[-1][:3]
        if f1 > f0:
            raise Bad("descriptor-leak", "%d descriptors open with no client left, %d some rounds before" % (f1, f0))
        # once may be someone's list in a group that stays (the server's); what is lost goes on being lost
        grew = sum(1 for i in range(WARM + 1, len(hist)) if hist[i][0] > max(x[0] for x in hist[WARM:i]))
        if h1 - h0 > (1024 + 3 * max(0, s1 - s0) if sc["db"] else 200) and grew < 4 and len(hist) < 40:
            srv.stop()
            srv = None
            return execute(dict(sc, rounds=40))
        if h1 - h0 > (1024 + 3 * max(0, s1 - s0) if sc["db"] else 200) and grew >= 4:
            raise Bad("memory-leak", "with no client left, %d bytes of memory are in use after %d connections, %d bytes after %d; the user database grew by %d bytes. All rounds: %s" %
                      (h1, hist[-1][3], h0, hist[WARM][3], s1 - s0, [x[0] for x in hist]))
    except Bad as e:
        res.update(ok=False, kind="bad", key=e.key, detail=str(e))
    except Exception as e:
        class W:
            pass
        W.srv = srv
        c = runner.classify(e, W if srv else None)
        res.update(dict(ok=False, kind=c[0], key=c[1], detail=c[2]) if c else dict(ok=False, kind="harness", key="harness", detail=traceback.format_exc()))
    finally:
        if srv is not None:
            srv.stop()
    return res


def scenario(seed, k):
    return dict(seed="C18/%s/%d/heap" % (seed, k), tls=k % 4 == 3, db=k % 3 == 1, rounds=10)


def run(ctx):
    build.build("asan")
    n = ctx.pick(72, 1800)
    with mp.Pool(runner.JOBS) as pool:
        for res in pool.imap_unordered(execute, [scenario(ctx.seed, k) for k in range(n)]):
            ctx.evaluations += 1
            if res["ok"]:
                ctx.count("heap: rounds measured", res["rounds"])
                ctx.count("heap: connections", res["conns"])
                if res["conns"] >= 10:
                    ctx.case(res["sc"]["seed"])
                if len(ctx.samples) < 4:
                    ctx.samples.append(dict(scenario=res["sc"], heap_files_fds_connections=res["hist"]))
                continue
            if res["kind"] == "harness":
                pool.terminate()
                raise RuntimeError(res["detail"])
            if res["kind"] != "sanitizer" and execute(res["sc"])["ok"]:
                ctx.unconfirmed.append(res["detail"][:500])
                continue
            ctx.violation(res["key"], res["detail"], dict(scenario=res["sc"]))
            if len(ctx.viol) >= 3:
                pool.terminate()
                break
    ctx.rules.append("Rounds in which clients connect (plain and TLS, some not reading), do things and leave in all ways, partly with interfered reads and writes; with no client left, the memory in use "
                     "(from the sanitizer's allocator) and the descriptors must be those of the rounds before. Non-trivial: at least 10 connections; distinct by seed.")


def replay(d):
    build.build("asan")
    r = execute(d["scenario"])
    print("held" if r["ok"] else "reproduced", r.get("detail", ""))
    return 0 if r["ok"] else 1
