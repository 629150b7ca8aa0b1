"""Crash points and failing calls in changes of the user database."""
import hashlib, json, multiprocessing as mp, os, random, re, shutil, struct, tempfile, traceback
import build, gen, icb, profiles, runner, world
from pathlib import Path
from profiles import K

PROF = [dict(kinds=K(p=10, cp=3, delete=2, secure=3, name=3, close=2, login=14, setinfo=5, write=8, read=3), nicks=["alice", "Bob", "carol"], pwds=["pw", "pw2"], hosts=[1, 2], crowd=0),
        dict(kinds=K(p=8, write=16, read=5, login=10, name=1, close=1, delete=1), nicks=["alice", "Bob"], pwds=["pw"], hosts=[1], crowd=0)]


def parse(d):
    """the file as documented -> dict, or a string saying what is wrong"""
    p = Path(d) / "icbdb.db"
    if not p.exists():
        return {}
    b = p.read_bytes()
    if b[:4] != b"IDB\1":
        return "bad header %r" % b[:8]
    n, o, out = struct.unpack("<I", b[4:8])[0] if len(b) >= 8 else -1, 8, {}
    for _ in range(n):
        if o + 8 > len(b):
            return "truncated after %d bytes" % len(b)
        k, v = struct.unpack("<II", b[o:o + 8])
        if o + 8 + k + v > len(b):
            return "truncated after %d bytes" % len(b)
        key = b[o + 8:o + 8 + k]
        if key in out:
            return "%r twice" % key
        out[key] = b[o + 8 + k:o + 8 + k + v]
        o += 8 + k + v
    return out if o == len(b) and n >= 0 else "%d bytes too many" % (len(b) - o)


def nicks(*dbs):
    return {k.split(b".")[0] for d in dbs for k in d}


def record(db, n):
    return {k: v for k, v in db.items() if k.split(b".")[0] == n}


def differ(a, b):
    return ", ".join("%s: %r/%r" % (k.decode("latin1"), a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))[:600]


def main_part(rec):
    """without what is kept by separate changes of its own: times of coming and going, and the
    count of messages being set up as zero"""
    return {k: v for k, v in rec.items() if k.split(b".")[1] not in (b"signon", b"signoff") and (k.split(b".")[1], v) != (b"nummsg", b"0")}


def either(got, before, after):
    """every record as before or as after -> what is wrong, or None"""
    if isinstance(got, str):
        return "the database file is unreadable: " + got
    for n in sorted(nicks(got, before, after)):
        r, b, a = record(got, n), record(before, n), record(after, n)
        if main_part(r) != main_part(b) and main_part(r) != main_part(a):
            return "record of %s is neither as before (%s) nor as after (%s)" % (n.decode("latin1"), differ(r, b), differ(r, a))
        for k in set(r) | set(a) | set(b):
            if r.get(k) not in (a.get(k), b.get(k)) and not (k.endswith(b".nummsg") and r.get(k) in (None, b"0")):
                return "%s of %s is %r, before %r, after %r" % (k.decode("latin1"), n.decode("latin1"), r.get(k), b.get(k), a.get(k))
    return None


class Bad(Exception):
    def __init__(self, key, text):
        self.key = key
        super().__init__(text)


def fresh(dir, files=None, db=None, dblog=False):
    w = world.World(build.BUILD / "asan" / "cm" / "server" / "icbd", keep_dir=dir, dblog=dblog)
    if db is not None:
        w.m.db = dict(db)
        w.m.put(b"server", b"signon", w.m.stamp())
    return w


def check_log(dir):
    """what a rename publishes has been synced -> (renames, problem)"""
    last, ren = {}, 0
    for l in Path(dir, "dblog").read_text().splitlines():
        f = l.split()
        if f[0] in ("open-trunc", "open"):
            last = dict(fd=f[-1], path=f[1], dirty=False)
            if f[0] == "open-trunc" and f[1].endswith("icbdb.db"):
                return ren, "the database file itself is overwritten"
        elif f[0] == "write" and last.get("fd") == f[-1]:
            last["dirty"] = True
        elif f[0] == "fsync" and last.get("fd") == f[-1]:
            last["dirty"] = False
        elif f[0] == "rename" and f[-1] == "0":
            ren += 1
            if last.get("path") == f[1] and last.get("dirty"):
                return ren, "%s renamed without having been synced" % f[1]
    return ren, None


def history(sc, ops=None, n=45):
    """a fault-free run: after every operation the file holds exactly what the model says"""
    r = random.Random(sc["seed"])
    dir = tempfile.mkdtemp(prefix="icbv.")
    out = dict(ops=[], targets=[], renames=0, changes=0)
    w = None
    try:
        w = fresh(dir, dblog=True)
        if sc.get("short"):
            w.srv.dbfault(4, 0)
        g = gen.Gen(r, w, PROF[sc["prof"]])
        for k in range(n if ops is None else len(ops)):
            op = g.next() if ops is None else ops[k]
            before = dict(w.m.db)
            c0 = w.srv.barrier()["dbcalls"]
            w.ops = []
            w.do(op)
            out["ops"].append(op)
            calls = w.srv.barrier()["dbcalls"] - c0
            got = parse(dir)
            if got != w.m.db:
                raise Bad("not-saved", "after %s the file differs from what was done: %s" % (op, got if isinstance(got, str) else differ(got, w.m.db)))
            if os.path.exists(dir + "/icbdb.db") and os.stat(dir + "/icbdb.db").st_mode & 0o077:
                raise Bad("readable", "other accounts can read the database file")
            if w.m.db != before:
                out["changes"] += 1
                out["targets"].append((k, calls))
        out["renames"], bad = check_log(dir)
        if bad:
            raise Bad("not-synced", bad)
        return out
    finally:
        if w is not None:
            w.stop()
        shutil.rmtree(dir, ignore_errors=True)


def point(sc, ops, t, mode, n):
    """ops[t] with its n-th database call as crash point (1, 2) or failing (3) -> what happened"""
    dir = tempfile.mkdtemp(prefix="icbv.")
    w = None
    try:
        w = fresh(dir, dblog=mode == 3)
        for op in ops[:t]:
            w.do(op)
        before = dict(w.m.db)
        w.srv.dbfault(mode, n)
        w.op = ops[t]
        died = False
        try:
            getattr(w, "op_" + ops[t][0])(*ops[t][1:])
            w.settle_model()
            st = w.srv.barrier()
        except icb.ServerDied:
            if w.srv.proc.poll() != 70:
                raise
            died = True
            # (the model may not have got to it)
            w.settle_model()
        after = dict(w.m.db)
        if mode in (1, 2):
            if not died:
                return "no such call"
        else:
            w.srv.dbfault(0, 0)
        got = parse(dir)
        bad = either(got, before, after)
        if bad:
            raise Bad("torn", "%s of database call %d of %s: %s" % ("crash at" if died else "failure of", n, ops[t], bad))
        if not died:
            # it goes on working, and the next change is saved along with whatever is left of this one
            c = w.srv.connect(9)
            w.srv.barrier()
            c.send("a", "zed", "zed", "zz", "login", "")
            w.srv.barrier()
            c.send("h", "p", "zedpw")
            w.srv.barrier()
            got2 = parse(dir)
            if isinstance(got2, str):
                raise Bad("torn", "after a later change: " + got2)
            if got2.get(b"zed.password") != b"zedpw":
                raise Bad("stuck", "after a failed database call (%d of %s) a later registration is not saved: %r" % (n, ops[t], c.take()))
            bad = either({k: v for k, v in got2.items() if not k.startswith(b"zed.")}, before, after)
            if bad:
                raise Bad("torn", "failure of database call %d of %s, then another change: %s" % (n, ops[t], bad))
            got = got2
            bad = check_log(dir)[1]
            if bad:
                raise Bad("not-synced", "failure of database call %d of %s: %s" % (n, ops[t], bad))
        # a new server on what is left
        w.srv.kill()
        for c in w.srv.clients:
            c.close()
        w = None
        w = fresh(dir, db=got)
        who = [x for x in sorted(nicks(got)) if x + b".password" in got and x != b"server"]
        for i, x in enumerate(who):
            w.do(["conn", 1, False])
            nick = x.decode("latin1")
            w.do(["login", i, "probe", nick, "1", got[x + b".password"].decode("latin1")])
            w.do(["cmd", i, "m", "server whois " + nick])
            w.do(["cmd", i, "m", "server read"])
        if parse(dir) != w.m.db:
            raise Bad("not-saved", "after the restart the file differs from what was done")
        return "died" if died else "failed"
    finally:
        if w is not None:
            w.stop()
        shutil.rmtree(dir, ignore_errors=True)


def one(a):
    sc, maxpts = a
    res = dict(ok=True, sc=sc, points={}, sig=set(), changes=0, renames=0, npoints=0)
    try:
        h = history(sc)
        res.update(changes=h["changes"], renames=h["renames"])
        r = random.Random(sc["seed"] + "/p")
        pts = []
        seen = {}
        for t, calls in h["targets"]:
            tag = runner.tag(h["ops"][t])
            if seen.get(tag, 0) >= 2:
                continue
            seen[tag] = seen.get(tag, 0) + 1
            ns = list(range(1, calls + 1))
            if len(ns) > 24:
                ns = sorted(set(ns[:4] + ns[-8:] + r.sample(ns, 12)))
            pts += [(t, m, n) for n in ns for m in (1, 2, 3)]
        r.shuffle(pts)
        for t, m, n in pts[:maxpts]:
            x = None
            try:
                x = point(sc, h["ops"], t, m, n)
            except Exception as e:
                res["at"] = dict(ops=h["ops"], t=t, mode=m, n=n)
                raise
            k = "%s %s" % ({1: "crash before call", 2: "crash within write", 3: "failing call"}[m], x)
            res["points"][k] = res["points"].get(k, 0) + 1
            if x != "no such call":
                res["npoints"] += 1
                res["sig"].add((runner.tag(h["ops"][t]), m, n))
        res["sample"] = dict(operation=h["ops"][pts[0][0]], mode=pts[0][1], call=pts[0][2]) if pts else None
    except Bad as e:
        res.update(ok=False, kind="bad", key=e.key, detail=str(e))
    except Exception as e:
        c = runner.classify(e, None)
        if c is None:
            res.update(ok=False, kind="harness", key="harness", detail=traceback.format_exc())
        else:
            res.update(ok=False, kind=c[0], key=c[1], detail=c[2])
    return res


def again(res):
    try:
        if "at" in res:
            point(res["sc"], res["at"]["ops"], res["at"]["t"], res["at"]["mode"], res["at"]["n"])
        else:
            history(res["sc"])
        return False
    except Exception:
        return True


def run(ctx):
    ctx.level = "fault_enumeration"
    build.build("asan")
    n, mx = ctx.pick((96, 40), (800, 120))
    jobs = [(dict(seed="C15/%d/%d" % (ctx.seed, k), prof=k % 2, short=k % 4 > 1), mx) for k in range(n)]
    sigs = set()
    with mp.Pool(runner.JOBS) as pool:
        for res in pool.imap_unordered(one, jobs):
            ctx.evaluations += 1 + res["npoints"]
            ctx.count("histories")
            ctx.count("histories with writes cut short by the system", int(res["sc"]["short"]))
            ctx.count("changes found saved at once", res["changes"])
            ctx.count("renames checked for sync", res["renames"])
            for k, v in res["points"].items():
                ctx.count(k, v)
            sigs |= res["sig"]
            for s in res["sig"]:
                ctx.case((res["sc"]["seed"],) + s)
            if res["ok"]:
                if res.get("sample") and len(ctx.samples) < 4:
                    ctx.samples.append(res["sample"])
                continue
            if res["kind"] == "harness":
                pool.terminate()
                raise RuntimeError(res["detail"])
            if res["kind"] != "sanitizer" and not again(res):
                ctx.unconfirmed.append(res["detail"][:500])
                continue
            ctx.violation(res["key"], res["detail"], dict(scenario=res["sc"], at=res.get("at")))
            if len(ctx.viol) >= 3:
                pool.terminate()
                break
    ctx.count("distinct (operation, kind of fault, call)", len(sigs))
    ctx.rules.append("Random histories of registrations, passwords, data and messages; after each operation the file must hold exactly the model's database; then operations of each history "
                     "are repeated with one of their database calls as crash point, cut-short write or failing call: every record must be as before or as after, the server (or a new one "
                     "on the files left behind) must go on and agree with the model. Non-trivial: the chosen call was reached; distinct by history, operation, fault and call.")
    ctx.assumptions.append("Loss of unsynced data at power failure is represented by the required order write, sync, rename.")


def replay(d):
    build.build("asan")
    r = again(d)
    print("reproduced" if r else "held")
    return int(r)
