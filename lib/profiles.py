"""What is done, and how often, to exercise each property; which operations
count as its own (a difference after any other ends the scenario without a
verdict for this property)."""

BASE = dict(conn=5, login=12, g=2, adv=0.6, close=0.6)


def K(**kw):
    d = dict(BASE)
    d.update(kw)
    return {k: v for k, v in d.items() if v}


def files_std(r):
    f = {}
    if r.random() < .5:
        f["motd"] = b"Welcome since %U\n100%% fun\n"
    return f


def files_gate(r):
    """access files with a few entries, often several for the same user"""
    f = files_std(r)
    ids = ["bob", "alice", "carol", "u1", "root", "bobby", "BOB", "abcdefghijkl"]
    hosts = ["localhost", "h2.test", "h3.test", "h4.test", "h2.test.org", "[127.0.0.77]", "H2.test", "h2.tes", "v6.test", "[::ffff:127.0.0.77]", "[::1]"]
    perm = ["PERM_DENY", "PERM_DENY", "perm_deny", "PERM_NULL", "PERM_SLOWMSGS", "PERM_NULL|PERM_DENY", "PERM_DENY|PERM_SLOWMSGS", "nonsense", "XPERM_DENY"]
    if r.random() < .6:
        pat = ["*@h4.test", "bob@*", "root@*", "*@*.ex.tes*", "?ob@h[23].test", "ALICE@*", "u1@[[]127.0.0.77]", "*@localhost", "bob*@h2.test*", "carol@h3.test", "*", "[^b]*@h2.test",
               "*@*.org"]
        f["icbd.deny"] = b"".join(("%s%s" % (r.choice(pat), r.choice([" go away\n", "\tno entry\n", " \n", "\n", "\n\n", " 100%s\n"]))).encode() for _ in range(r.choice([1, 1, 2, 4])))
    if r.random() < .7:
        o = []
        who = (r.choice(ids), r.choice(hosts))
        for _ in range(r.choice([1, 2, 2, 3, 5])):
            s = r.choice(["\t", " ", "  \t"])
            x = r.random()
            if x < .1:
                o.append(r.choice(["# user bob h2.test PERM_DENY", "", "   ", "user", "user bob", "mask 127.0.0.1", "other a b PERM_DENY", "user bob h2.test"]))
            elif x < .65:
                u, h = who if r.random() < .6 else (r.choice(ids), r.choice(hosts))
                o.append(s.join([r.choice(["user", "user", "USER"]), u, h, r.choice(perm)]))
            else:
                o.append(s.join(["mask", r.choice(["127.0.0.0", "127.0.0.1", "127.0.0.2", "127.0.0.3", "127.0.0.52", "10.0.0.0", "0.0.0.0"]),
                                 r.choice(["255.255.255.255", "255.255.255.252", "255.0.0.0", "255.255.255.254", "0.0.0.0"]), r.choice(perm)]))
        f["icbd.perms"] = ("\n".join(o) + "\n").encode()
    return f


def files_info(r):
    f = {}

    def lines():
        return b"".join(r.choice([b"w", b"some words", b"%U", b"%", b"%s", b"\xc3\xa9", b"", b"\t", b" "]) * r.choice([1, 1, 3]) + b"y" * r.choice([0, 0, r.randrange(300), r.randrange(235, 262)]) +
                        r.choice([b"", b"z", b"%U", b"%%", b"\xe2\x82\xac"]) + b"\n" for _ in range(r.randrange(5)))
    if r.random() < .5:
        f["icbd_help"] = lines()
    if r.random() < .3:
        f["motd"] = lines()
    elif r.random() < .8:
        f["motd"] = r.choice([b"hello %U\nthere\n", b"%%\n%x\n\n\nlast\n", b"z" * 250 + b"\n", b"a\xc3\xa9b\n%U%U%U%U%U%U%U%U%U%U%U%U%U\n", b""])
    for n in ("1", "2", "3", "9", "zz", "faq"):
        if r.random() < .35:
            f["news." + n] = lines() if r.random() < .4 else r.choice([b"some news\nmore\n", b"z" * 300 + b"\n", b"%s%n\n\n", b"one\ntwo\nthree\n", b"x" * 254 + b"\nz\n"])
    return f


def files_gate_f(r):
    """(throttled clients are for the other mode)"""
    return {k: v.replace(b"SLOWMSGS", b"NULL") for k, v in files_gate(r).items()}


NICK_FEW = ["alice", "Bob", "carol", "bobby"]
NICK_CONF = ["bob", "BOB", "b ob", "bo\x05b", "bob\xe9", "bob_", "abcdefghijkl", "abcdefghijklm", "ABCDEFGHIJKL", "Server", "admin", "ad min", "al%s"]
GR_FEW = ["dev", "ops", "Lobby"]
MODC = dict(status=6, boot=3, **{"pass": 3}, topic=2, invite=3, cancel=2, talk=3)
GRP = ("g status boot pass topic invite cancel talk w exclude pkt:b pkt:h close half zero adv drop login name p burst conn bytes raw:b raw:h raw:a"
       ).split()

P = {}


NOISE = ("open exclude m g name invite cancel pass boot status topic talk w whereis beep hush notify echoback nobeep ping pong away noaway p cp secure "
         "write read whois setinfo stats half maxlen adv_edge flood").split()


def prof(pid, *variants, noise=.1, **common):
    """noise: the share of everything else, so that the features meet each other"""
    P[pid] = []
    for v in variants:
        v = dict(common, **v)
        k = v["kinds"]
        n = [x for x in NOISE if x not in k]
        t = sum(k.values())
        v["kinds"] = dict(k, **{x: noise * t / (1 - noise) / len(n) for x in n})
        P[pid].append(v)


prof("C03",
     dict(kinds=K(open=8, m=6, topic=3, away=3, boot=1, exclude=2, setinfo=4, whois=4, write=3, read=3, p=3, status=3, w=3, name=3, invite=1, hush=2,
                  notify=1, raw=3, maxlen=4, files=1, beep=1, ping=1, whereis=2, badcmd=2), hostile=0.8),
     dict(kinds=K(open=8, m=6, topic=3, away=3, exclude=2, setinfo=3, whois=3, p=2, w=3, name=2, raw=3, maxlen=4, files=3, burst=4, pieces=6),
          hostile=0.8, follow=True, files=files_info), n=(1560, 20000), on=None)

prof("C04",
     dict(kinds=K(open=20, exclude=4, echoback=2, hush=2, name=1, m=1, status=1.5, talk=1, maxlen=1, raw=0.5, away=0.5, half=.3), groups=GR_FEW,
          status=["q", "n", "l", "c", "m", "p", "name"]),
     dict(kinds=K(open=20, burst=12, pieces=8, exclude=2, echoback=1, hush=1, name=.5, half=.5, zero=.3), groups=GR_FEW, follow=True),
     dict(kinds=dict(conn=10, login=12, open=8, exclude=2, hush=.3, g=1, close=.5, burst=2), groups=["dev"], max_clients=40, follow=True, nops=350,
          nicks=["n%d" % i for i in range(60)]),
     n=(1800, 24000), on="pkt:b exclude raw:b bytes burst g close half zero conn login name hush shush echoback status talk boot drop p".split())

prof("C05",
     dict(kinds=K(m=20, hush=3, name=2, echoback=2, away=2, noaway=1, whereis=1, g=3, maxlen=1, half=.3, status=1), hostile=0.3),
     dict(kinds=K(m=20, burst=10, pieces=5, name=1, echoback=1, hush=1), follow=True),
     n=(1560, 20000), on="m whereis name raw:h bytes burst hush shush echoback close half zero conn login away noaway drop".split())

prof("C06",
     dict(kinds=K(name=14, login=20, m=4, whereis=4, close=1.5, p=2, w=2, admin=1, relogin=1, half=.3), nicks=NICK_CONF, hostile=0.4),
     dict(kinds=K(name=14, login=20, burst=8, whereis=3, close=2), nicks=NICK_CONF, follow=True),
     n=(1560, 20000), on="name login m whereis w conn close half zero admin burst p raw:a raw:h pkt:a drop cp delete".split())

prof("C07",
     dict(kinds=K(conn=10, login=20, anon=8, relogin=2, open=2, w=2, name=1, close=1, p=1, half=.5, adv=2, admin=2), files=files_gate, hostile=0.5),
     dict(kinds=K(conn=10, login=20, anon=12, zero=.5, relogin=2, w=2, status=2, invite=2, burst=3), hostile=0.6, follow=True),
     n=(1560, 20000), on="login conn zero half close pkt:a raw:a burst adv w p".split(), anon=True)

prof("C08",
     dict(kinds=K(g=16, g3=1, invite=6, cancel=3, status=4, boot=3, p=3, name=2, login=14, secure=.5, fill_group=.2), groups=["dev", "ops"], pwds=["pw"],
          status=["r", "r", "r", "m", "c", "p", "#", "#", "i", "s", "v"]),
     dict(kinds=K(g=16, invite=6, cancel=3, status=4, boot=3, p=3, admin=1, login=14, burst=3), groups=["dev", "ops"], pwds=["pw"], follow=True,
          status=["r", "r", "r", "m", "c", "p", "#", "#"]),
     dict(kinds=K(flood=8, open=2, g=16, invite=4, cancel=2, status=5, boot=2, p=2, login=14, name=1), groups=["1", "1", "dev", "ops"], pwds=["pw"],
          status=["r", "r", "r", "m", "#"]),
     n=(2160, 24000), on="g login invite cancel status boot burst p pkt:h conn close half zero name w pass drop adv cp delete secure nosecure pkt:b".split())

prof("C09",
     dict(kinds=K(open=6, exclude=3, p=2, g=5, admin=.7, fill_group=.2, **MODC), groups=["dev", "ops"]),
     dict(kinds=K(open=10, exclude=4, talk=6, fill_group=.2, status=5, p=3, g=4, name=1, boot=1, **{"pass": 1}), groups=["dev"], status=["c", "c", "q", "m", "p", "n", "l"], pwds=["pw"]),
     n=(1920, 24000), on="status boot pass topic invite cancel talk exclude pkt:b raw:b g p name login w drop close half zero conn adv".split())

prof("C10",
     dict(kinds=K(w=14, whereis=3, g=8, status=5, invite=2, notify=3, login=16, close=1.5, m=1, stats=1, admin=.7, name=1),
          groups=["dev", "ops", "s1"], status=["s", "i", "i", "v", "r", "p", "m"]),
     n=(1920, 24000), on="w whereis g login notify close half zero stats v invite cancel conn status m name drop boot topic pass exclude pkt:b adv".split())

prof("C11",
     dict(kinds=K(heir=5, g=8, close=3, adv=2, adv_edge=3, w=4, status_q=3, p=4, boot=2, drop=1, name=1, login=16, away=1, half=.5, status=3, invite=1, topic=1, **{"pass": 3}),
          groups=["dev", "ops"], pwds=["pw"]),
     dict(kinds=K(g=8, close=3, adv=2, adv_edge=1, w=4, status_q=3, p=3, boot=2, login=16, burst=4, status=2, **{"pass": 2}), groups=["dev", "ops"], pwds=["pw"],
          follow=True),
     n=(2160, 28000), on=GRP)

prof("C12",
     dict(kinds=K(admincmd=20, admin=6, drop=3, w=1, g=3, wall=2, boot=2, close=1, name=2, p=1, status=2, login=14, shuttime=1, adv=1), shutdown=True,
          nicks=["alice", "Bob", "ADMIN", "admin", "carol"]),
     dict(kinds=K(admincmd=20, admin=6, drop=4, wall=2, name=3, login=14, p=3), nicks=["alice", "Bob", "ADMIN", "Admin", "carol"],
          pwds=["pw", "ci_test_pwd", "CI_TEST_PWD", "ci", "ci_test", "c", "ci_test_pwdx"]),
     n=(1800, 24000), on="wall log drop boot pass stats g w shutdown restart name login p adv shuttime close half zero conn status topic invite".split())

prof("C13",
     dict(kinds=K(p=10, cp=4, delete=3, secure=3, name=5, login=18, close=4, whois=2, drop=2, setinfo=2, invite=1, read=1, write=1, half=.3),
          nicks=NICK_FEW, pwds=["pw", "PW", "pw2", "abcdefghijkl", "abcdefghijklmnop"], hosts=[1, 2, 22, 52],
          ids=["bob", "bobby", "obb", "bbob", "alice"]),
     n=(1920, 24000), on="p cp delete secure nosecure name login drop whois setinfo rname text addr phone www email read write close half zero invite w g conn".split())

prof("C14",
     dict(kinds=K(write=16, read=5, p=8, name=3, close=2, login=14, delete=1, m=1, adv=1), nicks=NICK_FEW, pwds=["pw"], hostile=0.4),
     dict(kinds=K(write=40, read=1, p=6, login=10, close=.3, name=.5), nicks=["alice", "Bob"], pwds=["pw"], nops=260),
     n=(1560, 20000), on="write read p name login delete close half zero conn cp adv secure nosecure".split())

prof("C17",
     dict(kinds=K(w=14, whereis=5, stats=2, g=5, name=2, away=1, noaway=.5, close=1.5, status=3, topic=2, whois=1, half=.3, m=1, p=1, boot=1), tls=0.15),
     dict(kinds=dict(conn=10, login=12, w=6, g=4, name=1, close=1, whereis=1, stats=.5, status=1, away=.5), max_clients=40, nops=300,
          nicks=["n%d" % i for i in range(60)], groups=["g%d" % i for i in range(25)]),
     n=(1800, 24000), on="w whereis stats v whois login conn close half zero g name status topic away noaway boot p pass adv".split())

prof("C18",
     dict(kinds=K(conn=10, login=20, close=5, half=1, zero=1, hush=4, notify=3, away=4, echoback=3, nobeep=3, ping=3, pong=2, beep=2, m=4, whereis=3, open=3, w=2,
                  p=2, drop=1, brick=1, adv=1, g=2, secure=1, invite=1), max_clients=5),
     dict(kinds=K(conn=10, login=20, close=6, half=1, zero=1, hush=4, notify=3, away=4, echoback=3, nobeep=3, ping=3, pong=2, m=4, whereis=3, open=3, w=2, burst=5,
                  pieces=4), max_clients=5, follow=True, conserve=True),
     n=(1920, 24000), on=None)

prof("C21",
     dict(kinds=K(hush=10, notify=10, m=8, open=8, login=20, close=5, name=2, g=3, exclude=2, drop=.5, beep=1, half=.5, status=1, invite=1, fill=.3), status=["i", "s", "v"]),
     dict(kinds=K(hush=14, notify=14, fill=.3, m=3, open=3, login=16, close=2, name=1), nicks=["n%d" % i for i in range(40)]),
     dict(kinds=K(hush_mod=9, hush=3, g=14, status=5, m=2, beep=2, open=2, login=12, close=1, invite=1, whereis=2), groups=["dev", "ops"], status=["r", "r", "r", "#", "m", "c", "l"]),
     n=(2400, 24000), on="hush shush notify m pkt:b login close half exclude conn zero name g drop beep whereis boot".split())

prof("C22",
     dict(kinds=K(ping=8, pong=8, beep=8, nobeep=4, echoback=4, away=8, noaway=2, m=10, open=5, adv=4, away_again=5, close=2, name=1, hush=1),
          advs=[0.01, 0.3, 0.999, 1, 1.5, 2, 29, 30, 31, 59, 60, 61, 300]),
     dict(kinds=K(ping=8, pong=8, beep=4, away=6, m=10, burst=6, close=1, adv=2, away_again=2), follow=True),
     n=(1800, 24000), on="ping pkt:m raw:m beep nobeep echoback away noaway m pkt:b close adv burst half zero conn login name".split())

prof("C23",
     dict(kinds=K(adv_edge=14, adv=5, status=5, open=3, away=1, g=4, close=1.5, w=2, p=4, login=14, **{"pass": 1}), pwds=["pw"], groups=["dev", "ops"],
          status=["b", "b", "im", "im", "idlebootmsg", "r", "m", "c", "p", "q", "n"], advs=[0.4, 1, 59, 60, 61, 119, 121, 600, 3599, 3600, 3601]),
     dict(kinds=K(adv_edge=14, adv=5, shutdown=3, admin=4, shuttime=3, open=1), groups=["dev"], shutdown=True, advs=[1, 30, 59, 60, 61, 240, 300]),
     dict(kinds=K(adv_edge=6, adv=6, open=12, flood=4, m=4, w=1), groups=["1"], advs=[0.2, 0.5, 1, 1, 2]),
     n=(1920, 24000), on="adv status shutdown shuttime open pkt:b w g pass close half login m wall away".split())

CANARY = ["Xsecret1X", "Xs3cret2X", "Xpassw0rdX"]
prof("C30",
     dict(kinds=K(conn=10, login=16, anon=12, open=3, badcmd=4, forge=6, admincmd=3, admin=2, drop=3, close=3, half=1, zero=1, adv_edge=3, adv=1, raw=6, p=3, cp=1, name=2, m=2,
                  status=2, loglevel=2, g=2, files=1, boot=1), files=files_gate, hostile=.5, loglevel=[0, 1, 2, 3, 3, 3, 3, 4, 5], pwds=CANARY, tls=.15,
          status=["b", "b", "n", "r", "c"]),
     dict(kinds=K(conn=10, login=16, anon=10, open=3, badcmd=3, forge=5, admincmd=3, admin=2, drop=3, close=3, raw=4, name=1, burst=6, pieces=4, loglevel=1, p=2),
          files=files_gate_f, hostile=.4, follow=True, loglevel=[1, 3, 3, 4, 5], pwds=CANARY),
     n=(1400, 16000), on=None, only="log")

prof("C28",
     dict(kinds=K(files=12, stats=4, conn=8, login=16, w=1, close=3, info=3, whois=2, badcmd=1, boot=1, drop=1, p=1, admin=1, admincmd=1), files=files_info),
     n=(1320, 12000), on="motd news s_help stats v login conn close info help ? usage whois log p boot drop w".split())

prof("C25",
     dict(kinds=K(conn=14, login=18, close=5, w=4, whereis=8, invite=2, g=4, status=2, hush=2, m=2, p=3, secure=.5, name=1, write=.5, cancel=1, drop=1), groups=["dev", "ops"],
          status=["r", "r", "#", "p"], files=files_gate, nicks=NICK_FEW, ids=["bob", "alice", "u1"], pwds=["pw"], dns=1, tls=.1, dual=.3),
     dict(kinds=K(conn=14, login=18, close=5, w=4, whereis=8, p=5, secure=1, name=3, cp=2, whois=2), groups=["dev", "ops"],
          nicks=NICK_FEW, ids=["bob", "alice"], pwds=["pw"], dns=1, dual=.5),
     n=(1500, 18000), on="login w whereis conn whois name p cp g m pkt:b".split())

prof("C27",
     dict(kinds=K(brick=30, g=4, name=2, close=1.5, login=16, w=1, open=1), brick=True, flavour="brick"),
     dict(kinds=K(brick=30, burst=8, name=1, close=1), brick=True, flavour="brick", follow=True),
     n=(1440, 16000), on="brick burst login close half zero conn name g drop".split())

prof("C20",
     dict(kinds=K(open=8, m=6, w=4, name=1, g=3, pieces=14, burst=6, exclude=1, half=.3, close=1.5, zero=.3, maxlen=2), tls=0.6, follow=True, serve_tls=True, nops=120,
          max_clients=5),
     n=(240, 9600), on=None)

prof("C02",
     dict(kinds=K(pieces=40, burst=12, open=4, m=3, w=2, hush=1, away=1, maxlen=3, raw=1, zero=.2, half=.3, close=.6), follow=True, faults="r"),
     dict(kinds=K(pieces=40, burst=12, open=8, m=6, w=2, maxlen=3, raw=1, close=.6), follow=True, faults="rw"),
     dict(kinds=K(pieces=40, burst=12, open=8, m=6, w=2, maxlen=3, raw=1, close=.6), follow=True),
     n=(1800, 24000), on=None)
