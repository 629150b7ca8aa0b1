"""Hostile traffic and data files against sanitized servers."""
import hashlib, multiprocessing as mp, random, traceback
import build, fuzz, icb, runner, world
from icb import frame

FLAV = ["asan", "msan", "asan", "fortify", "asan", "brick", "msan", "asan"]


class Refused(Exception):
    pass


def execute(sc, ops=None, rng=None, n=200):
    """-> dict(ok, ...)"""
    files = {k: bytes.fromhex(v) for k, v in sc["files"].items()}
    if sc["tls"]:
        files["icbd.pem"] = icb.test_pem(build.BUILD)
    done, res = [], dict(ok=True, sc=sc, sigs=set(), bytes=0, packets=0, kinds={})
    srv = None
    try:
        srv = icb.Server(build.BUILD / sc["flavour"] / "cm" / "server" / "icbd", files=files, tls=sc["tls"], loglevel=sc.get("loglevel"))
        if sc.get("faults"):
            srv.faults(*sc["faults"])
        f = fuzz.Fuzz(rng, sc["tls"], crowd=sc.get("crowd", False)) if ops is None else None
        cl = []
        for k in range(n if ops is None else len(ops)):
            op = ops[k] if ops is not None else f.next()
            done.append(op)
            if op[0] == "conn":
                cl.append(srv.connect(op[1], op[2] and sc["tls"]))
            elif op[0] == "send":
                if not cl[op[1]].eof:
                    cl[op[1]].send_raw(bytes.fromhex(op[2]))
                    res["bytes"] += len(op[2]) // 2
                    res["kinds"][op[3]] = res["kinds"].get(op[3], 0) + 1
            elif op[0] == "close":
                cl[op[1]].close(op[2])
            elif op[0] == "half":
                cl[op[1]].shutdown()
            elif op[0] == "adv":
                srv.advance(op[1])
            srv.barrier()
            for i, c in enumerate(cl):
                got = c.take()
                res["packets"] += len(got)
                if op[0] == "send":
                    for g in got:
                        res["sigs"].add((op[3], i == op[1], g[:1] + g[1:4].split(b"\1")[0]))
                if c.eof and f is not None and i in f.open:
                    f.open.remove(i)
                if c.eof and not c.closed:
                    c.close()
        srv.faults()
        srv.barrier()
        c = srv.connect(4)
        for _ in range(50):
            srv.barrier()
            got = c.take()
            if got or c.eof:
                break
        if not got and not c.eof:
            raise world.Divergence(["probe"], None, "not-serving", "a new connection got nothing at all")
        c.send("a", "probe", "probe", "1", "login", "")
        got = []
        for _ in range(50):
            srv.barrier()
            got += c.take()
            if got or c.eof:
                break
        if not got and not c.eof:
            raise world.Divergence(["probe"], None, "not-serving", "a login got no answer")
        res["served"] = bool(got)
    except Exception as e:
        class W:
            pass
        w = W()
        w.srv = srv
        c = runner.classify(e, w if srv is not None else None)
        if c is None:
            res.update(ok=False, kind="harness", key="harness", detail=traceback.format_exc())
        else:
            res.update(ok=False, kind=c[0], key=c[1], detail=c[2])
    finally:
        if srv is not None:
            srv.stop()
    res["ops"] = done if not res["ok"] else done[:8]
    res["nops"] = len(done)
    return res


def scenario(seed, k):
    r = random.Random("C01/%s/%d" % (seed, k))
    fl = FLAV[k % len(FLAV)]
    tls = fl in ("asan", "brick") and r.random() < .25
    files = {a: b.hex() for a, b in (fuzz.hostile_files(r) if r.random() < .6 else {"motd": b"hi\n"}).items()}
    sc = dict(flavour=fl, files=files, tls=tls)
    if r.random() < .3:
        sc["loglevel"] = r.choice([1, 2, 3, 9])
    if r.random() < .25:
        sc["faults"] = [r.choice([0, 1, 7]), r.choice([0, 1, 60]), r.choice([0, 30]), r.choice([0, 30]), r.randrange(1 << 30)]
    if k % 12 == 2:
        sc["crowd"] = True
    return sc, r


def one(a):
    seed, k, n = a
    sc, r = scenario(seed, k)
    res = execute(sc, rng=r, n=n)
    res["k"] = k
    return res


def run(ctx):
    for f in sorted(set(FLAV)):
        build.build(f)
    n, steps = ctx.pick(560, 12000), ctx.pick(200, 300)
    sigs = set()
    with mp.Pool(runner.JOBS) as pool:
        for res in pool.imap_unordered(one, [(ctx.seed, k, steps) for k in range(n)]):
            if res["ok"]:
                ctx.evaluations += 1
                ctx.count("runs:" + res["sc"]["flavour"])
                ctx.count("operations", res["nops"])
                ctx.count("bytes sent", res["bytes"])
                ctx.count("packets received", res["packets"])
                ctx.count("runs with odd data files", int(len(res["sc"]["files"]) > 1))
                ctx.count("final client served", int(res["served"]))
                sigs |= res["sigs"]
                for a, b in res["kinds"].items():
                    ctx.count("sent:" + a, b)
                if res["packets"] > 30:
                    ctx.case(hashlib.sha256(repr((res["sc"], res["k"])).encode()).hexdigest())
                if len(ctx.samples) < 3:
                    ctx.samples.append(dict(scenario=dict(res["sc"], files=sorted(res["sc"]["files"])), operations=res["ops"]))
                continue
            if res["kind"] == "harness":
                pool.terminate()
                raise RuntimeError(res["detail"])
            if res["kind"] != "sanitizer":
                again = execute(res["sc"], ops=res["ops"])
                if again["ok"] or again["kind"] == "harness":
                    again = execute(res["sc"], ops=res["ops"])
                if again["ok"] or again["kind"] == "harness":
                    ctx.unconfirmed.append(res["detail"][:500])
                    continue
            ctx.violation(res["key"], res["detail"], dict(scenario=res["sc"], blind=res["ops"]))
            if len({v[0] for v in ctx.viol}) >= 3 or len(ctx.viol) >= 8:
                pool.terminate()
                break
    ctx.count("distinct kinds of answer", len(sigs))
    ctx.rules.append("Runs of up to %d operations (hostile and mutated packets, pieces, closes, time) with generated, often damaged data files against ASan+UBSan, MSan and "
                     "FORTIFY_SOURCE=3/stack-protector builds; the event loop must come to rest after each, and serve a new client at the end. Non-trivial: more than 30 packets "
                     "came back; distinct by scenario." % steps)
    ctx.assumptions.append("MSan runs without TLS (the TLS library is not instrumented).")


def replay(d):
    build.build(d["scenario"]["flavour"])
    r = execute(d["scenario"], ops=d["blind"])
    print("held" if r["ok"] else "reproduced", r.get("detail", ""))
    return 0 if r["ok"] else 1
