"""Runs checks: many scenarios in parallel, confirms what it finds, writes the evidence."""
import calendar, hashlib, json, multiprocessing as mp, os, random, re, signal, sys, time, traceback
from pathlib import Path
import build, gen, icb, world
import profiles

VERIF = build.VERIF
WORK = VERIF / "work"
EVID = VERIF / "evidence"
FINDINGS = VERIF / "known-findings.txt"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
FULL = .05         # share of scenarios on a server that gets full
LOST = ("died", "hang", "sanitizer")     # the server itself is gone: no guarantee is being kept


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed, level="exploration"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.viol = []           # (key, text, replay)
        self.unconfirmed = []
        self.cov = {}
        self.samples = []
        self.counts = {}
        self.rules = []
        self.evaluations = 0
        self.distinct = set()
        self.offtopic = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def case(self, sig):
        self.distinct.add(sig if isinstance(sig, (str, int, bytes, tuple)) else repr(sig))

    def violation(self, key, text, replay):
        """replay: whatever reproduces it (JSON)"""
        if len(self.viol) >= 20:
            return
        d = WORK / "replay"
        d.mkdir(parents=True, exist_ok=True)
        h = hashlib.sha256((key + json.dumps(replay, sort_keys=True, default=str)).encode()).hexdigest()[:12]
        p = d / ("%s-%s.json" % (self.pid, h))
        p.write_text(json.dumps(dict(property=self.pid, key=key, what=text, **replay), indent=1, default=str))
        self.viol.append((key, text, str(p)))

    def finish(self):
        known = [l[len("known: "):].strip() for l in FINDINGS.read_text().splitlines() if l.startswith("known: ")] if FINDINGS.exists() else []
        bad = 0
        for key, text, path in self.viol:
            hit = [k for k in known if k.split(" ")[0] == "property=" + self.pid and (" key=" + key) in k + " "]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0].partition(" -- ")[2] or key))
                continue
            bad += 1
            print("--- %s\n    %s" % (key, text.replace("\n", "\n    ")[:6000]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=" ".join(self.rules), samples=self.samples[:6],
                   observed=dict(sorted(self.counts.items())), **self.cov)
        if self.offtopic:
            cov["not_judged"] = self.offtopic[:20]
        if self.unconfirmed:
            cov["unconfirmed"] = self.unconfirmed[:20]
        EVID.mkdir(exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=bad)
        tmp = EVID / (self.pid + ".tmp")
        tmp.write_text(json.dumps(ev, indent=1, default=str) + "\n")
        os.replace(tmp, EVID / (self.pid + ".json"))
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violation(s), %.1f s" %
              (self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), bad, time.time() - self.t0))
        return 1 if bad else 0


# ---------------------------------------------------------------- scenarios against the model

def tag(op):
    k = op[0]
    if k == "cmd":
        c = op[2].lower()
        if c == "m" and len(op) > 3 and op[3].lower().startswith("server "):
            c = (op[3][7:].strip().split(" ") or [""])[0].lower()
        return c
    if k == "pkt":
        return "pkt:" + op[2]
    if k == "raw":
        t = bytes.fromhex(op[2])[:1].decode("latin1")
        return "raw:" + (t if t in "abhmn" else "?")
    return k


def sanitizer_key(rep):
    """what and where, without addresses"""
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", rep) or re.search(r"(WARNING: MemorySanitizer): ([\w-]+)", rep)
    kind = m.group(2) if m else ("ub" if "runtime error" in rep else "abort")
    if kind == "ub":
        m = re.search(r"/([\w.]+\.[ch]):\d+:\d+: runtime error: ([^\n]*)", rep)
        if m:
            return "ub:%s:%s" % (m.group(1), re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))[:60].replace(" ", "_"))
    f = [x for x in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", rep) if not x.startswith(("__", "_Z")) and
         x not in ("memcpy", "memmove", "strcpy", "strlen", "strcat", "vsnprintf", "snprintf", "sprintf", "vsprintf", "free", "malloc")]
    return "%s:%s" % (kind, f[0] if f else "?")


def classify(e, w):
    """-> (kind, detail) of what went wrong, or None if it is the harness"""
    rep = w.srv.report() if w is not None else ""
    if isinstance(e, icb.ServerDied):
        rep = rep or str(e)
        if "Sanitizer" in rep or "runtime error" in rep:
            return "sanitizer", sanitizer_key(rep), rep[:3500]
        return "died", "died", "%s\n%s" % (e, rep[-1500:])
    if isinstance(e, icb.ServerHang):
        return "hang", "hang", str(e)
    if isinstance(e, world.Divergence):
        return e.kind, "%s:%s" % (e.kind, tag(e.op)), str(e)
    return None


def setup_world(sc):
    files = {k: v.encode("latin1") for k, v in sc["files"].items()}
    if sc.get("tls"):
        files["icbd.pem"] = icb.test_pem(build.BUILD)
    w = world.World(build.BUILD / sc["flavour"] / "cm" / "server" / "icbd", files=files, max_users=sc.get("max_users", 255),
                    brick=sc.get("brick", False), tls=sc.get("tls", False), follow=sc.get("follow", False), loglevel=sc.get("loglevel"),
                    t0=sc.get("t0", icb.T0 // 1000000) * 1000000, tz=sc.get("tz", "UTC0"), dns=sc.get("dns"), dual=sc.get("dual", False))
    if "loglevel" in sc:
        w.log = 0
        w.secrets = [x.encode() for x in sc["secrets"]]
        w.op = ["start"]
        w.check_log()
    if sc.get("faults"):
        w.srv.faults(*sc["faults"])
        w.lossy = bool(sc["faults"][1] or sc["faults"][3])
    return w


def names(r, addrs):
    """what the name service says: the name of each address, and (honest or not) the addresses of each name"""
    known = ["localhost", "h2.test", "h3.test", "h4.test", "h2.test.org"]
    own = {1: "localhost", 2: "h2.test", 3: "h3.test", 4: "h4.test", 52: "h2.test.org"}
    odd = ["H2.Test", "x.y", "127.0.0.1", "127.0.0.2", "a-b.%s" % ("n" * 60), "n" * 63, "n" * 64, "n" * 65, "long." * r.choice([13, 25, 40, 50]) + "test", "h22.test"]
    rev, fwd = {}, {}
    for a in addrs:
        rev[str(a)] = own[a] if a in own and r.random() < .5 else r.choice(known * 3 + odd + ["!"])
        if r.random() < .1:
            del rev[str(a)]
    for n in known + odd:
        if n.lower() not in [x.lower() for x in fwd] and n[0] != "1":
            fwd[n] = [a for a in addrs if rev.get(str(a)) == n and r.random() < (.85 if own.get(a) == n else .4)]
            fwd[n] += r.sample([98, 99, 100, 2, 20, 5], r.choice([0, 0, 0, 1, 2, 5]))
            fwd[n] = list(dict.fromkeys(fwd[n]))
            r.shuffle(fwd[n])
    fwd["127.0.0.1"], fwd["127.0.0.2"] = [1], [2]
    return rev, fwd


def make_scenario(pid, vi, seed):
    v = profiles.P[pid][vi]
    r = random.Random("%s/%d/%s" % (pid, vi, seed))
    files = {k: x.decode("latin1") for k, x in v.get("files", profiles.files_std)(r).items()}
    sc = dict(pid=pid, variant=vi, flavour=v.get("flavour", "asan"), files=files, follow=v.get("follow", False), brick=v.get("brick", False),
              tls=v.get("serve_tls", False) or v.get("tls", 0) > 0, max_users=v.get("max_users", 255))
    if sc["flavour"] == "asan" and not v.get("max_clients", 0) > 10 and r.random() < FULL:
        sc.update(flavour="small", max_users=24)
    if v.get("loglevel"):
        sc["loglevel"] = r.choice(v["loglevel"])
        sc["secrets"] = v["pwds"]
    if v.get("faults"):
        rw = "w" in v["faults"]
        sc["faults"] = [r.choice([0, 1, 2, 3, 17, 100]), r.choice([0, 1, 5, 60]) if rw else 0, r.choice([0, 0, 20, 50]),
                        r.choice([0, 20, 50]) if rw else 0, r.randrange(1 << 30)]
    if r.random() < v.get("dns", .1):
        sc["dns"] = names(r, v.get("hosts", gen.HOSTS))
    if r.random() < v.get("dual", .1):
        sc["dual"] = True
    sc["tz"] = r.choice(list(icb.ZONES))
    sc["t0"] = calendar.timegm((r.randint(2003, 2036), r.randint(1, 12), r.choice([1, 9, 10, 27, 28]), r.choice([0, 0, 11, 12, 12, 23, r.randrange(24)]),
                                r.choice([0, 9, 59, r.randrange(60)]), r.choice([0, 58, r.randrange(60)]))) - 60 * icb.ZONES[sc["tz"]]
    return sc, r, v


def anon_op(w, op):
    """is it done by someone who has not logged in?"""
    if len(op) < 2 or not isinstance(op[1], int) or op[0] in ("conn", "adv") or not 0 <= op[1] < len(w.fd):
        return False
    u = w.user(op[1])
    return u is not None and u.login != world.LOGIN_COMPLETE


def run_ops(sc, ops=None, rng=None, v=None):
    """Runs a scenario, recorded (ops) or made up on the way (rng, v).
    -> dict(ok, kind, key, detail, ops, ...)"""
    w = None
    done = []
    res = dict(ok=True, sc=sc)
    sigs = set()
    ontopic = 0
    pv = profiles.P[sc["pid"]][sc["variant"]] if "variant" in sc else {}
    on, anon = pv.get("on"), pv.get("anon")
    last, who = None, False
    try:
        w = setup_world(sc)
        w.ops = done
        if ops is None:
            g = gen.Gen(rng, w, v)
        n = len(ops) if ops is not None else v.get("nops", 140) + len(g.opening)
        for k in range(n):
            op = ops[k] if ops is not None else g.next()
            last = op
            before = dict(w.events)
            who = anon_op(w, op)
            p0 = w.npkts
            w.do(op)
            t = tag(op)
            if (on is None or t in on or who and anon) and w.npkts > p0:
                ontopic += 1
                ev = tuple(sorted(x for x in w.events if w.events[x] != before.get(x, 0)))
                sigs.add(t + "|" + ",".join(ev) + "|%d" % min(w.npkts - p0, 6))
            if w.m.exited:
                break
        if v is None:
            v = profiles.P[sc["pid"]][sc["variant"]] if "variant" in sc else {}
        if v.get("conserve") and not w.m.exited:
            last = ["conserve"]
            conserve(w)
    except Exception as e:
        c = classify(e, w)
        if c is None:
            res.update(ok=False, kind="harness", key="harness", detail=traceback.format_exc())
        else:
            res.update(ok=False, kind=c[0], key=c[1], detail=c[2])
    finally:
        if w is not None:
            try:
                w.stop()
            except Exception:
                pass
    res.update(ops=done if not res["ok"] else done[:12], nops=len(done), last=last, anon=bool(who and anon), ontopic=ontopic, sigs=sigs,
               hash=hashlib.sha256(json.dumps(done).encode()).hexdigest())
    if w is not None:
        res.update(npkts=w.npkts, loglines=w.loglines, events=w.events, reads=w.reads, turns=w.turns, barriers=w.srv.barriers)
    return res


def conserve(w):
    """once everyone has gone nothing is held any more: no descriptor, no memory"""
    if getattr(w, "base_fds", None) is None:
        pass
    for i in list(w.live()):
        if not w.c[i].closed:
            w.do(["close", i, False])
    st = w.srv.barrier()
    if st["accepts"] != st["closes"]:
        raise world.Divergence(["conserve"], None, "descriptor-leak", "%(accepts)d connections accepted, %(closes)d closed, all clients gone" % st)


def _worker(job):
    pid, vi, seed = job
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        sc, r, v = make_scenario(pid, vi, seed)
        res = run_ops(sc, rng=r, v=v)
    except Exception:
        res = dict(ok=False, kind="harness", key="harness", detail=traceback.format_exc(), sc=None, ops=[], nops=0, last=None, ontopic=0, sigs=set(), hash="")
    res["job"] = job
    return res


def confirm(res, tries=3):
    """the recorded operations again, on a fresh server"""
    for _ in range(tries):
        r = run_ops(res["sc"], ops=res["ops"])
        if not r["ok"] and r["kind"] != "harness":
            return r
    return None


def run_profile(ctx, pid=None, need=None):
    pid = pid or ctx.pid
    vs = profiles.P[pid]
    for fl in sorted({v.get("flavour", "asan") for v in vs} | {"small"}):
        build.build(fl)
    n = ctx.pick(*vs[0]["n"])
    jobs = [(pid, i % len(vs), "%d/%d" % (ctx.seed, i)) for i in range(n)]
    on = vs[0].get("on")
    agg = {}
    steps = pk = 0
    with mp.Pool(JOBS) as pool:
        for res in pool.imap_unordered(_worker, jobs):
            ctx.evaluations += 1
            steps += res["nops"]
            pk += res.get("npkts", 0)
            for k, x in res.get("events", {}).items():
                agg[k] = agg.get(k, 0) + x
            for k in ("reads", "turns", "loglines"):
                if res.get(k):
                    ctx.count(k, res[k])
            ctx.count("steps judged as this property's own", res["ontopic"])
            for s in res["sigs"]:
                ctx.count_sigs = getattr(ctx, "count_sigs", set())
                ctx.count_sigs.add(s)
            if res["ok"]:
                if res["ontopic"] >= 5:
                    ctx.case(res["hash"])
                if len(ctx.samples) < 3:
                    ctx.samples.append(dict(variant=res["sc"]["variant"], first_operations=res["ops"]))
                continue
            if res["kind"] == "harness":
                pool.terminate()
                raise RuntimeError(res["detail"])
            t = tag(res["last"]) if res["last"] else "start"
            if vs[0].get("only") and not res["kind"].startswith(vs[0]["only"]) or not (res["kind"] in LOST or on is None or t in on or res.get("anon") or t in ("conserve", "start")):
                ctx.offtopic.append("%s: %s" % (t, res["detail"][:300]))
                continue
            again = confirm(res)
            if again is None and res["kind"] != "sanitizer":
                ctx.unconfirmed.append(res["detail"][:500])
                continue
            ctx.violation(res["key"], res["detail"], dict(scenario=res["sc"], ops=res["ops"]))
            if len(ctx.viol) >= 3:
                pool.terminate()
                break
    ctx.count("steps", steps)
    ctx.count("packets compared", pk)
    for k, x in agg.items():
        ctx.count("model:" + k, x)
    ctx.count("distinct step behaviours", len(getattr(ctx, "count_sigs", ())))
    ctx.rules.append("Scenarios of up to %d operations made up at random from the property's workload profile, each on a fresh instrumented server; after every operation "
                     "(in trace-following variants: every read, end of input, close and turn of the event loop) every connection must have received exactly the packets the "
                     "reference model gives. Non-trivial: at least 5 operations of the property's own produced output; distinct by operation list." %
                     max(v.get("nops", 140) for v in vs))
    if not ctx.viol and not any("model:" in k for k in ctx.counts) and need:
        raise RuntimeError("nothing observed")


def replay(path):
    d = json.loads(Path(path).read_text())
    if "ops" in d:
        build.build(d["scenario"]["flavour"])
        r = run_ops(d["scenario"], ops=d["ops"])
        print("reproduced" if not r["ok"] else "held", r.get("kind", ""), r.get("detail", ""))
        return 1 if not r["ok"] else 0
    mod = VERIF / "checks" / (d["property"] + ".py")
    if mod.exists():
        import importlib.util
        spec = importlib.util.spec_from_file_location("check_" + d["property"], mod)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        if hasattr(m, "replay"):
            d["sc"] = d.get("scenario")
            if d.get("at") is None:
                d.pop("at", None)
            return m.replay(d)
    print(json.dumps(d, indent=1))
    return 2
