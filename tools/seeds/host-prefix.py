PROPERTY = "C25"
NEEDS = "Somebody at 127.0.0.22 calls his address h2.test, the name of 127.0.0.2 (whose digits his address begins with)."
BREAKS = "He is taken for that host, and registered as its user without a password."
EDITS = [("pktserv/getrname.c", """        if (strcmp(orig_numeric, cand_numeric) == 0) {""",
          """        if (strncmp(orig_numeric, cand_numeric, strlen(cand_numeric)) == 0) {""")]
DEMO = '''
s = Server(shim=True, dns="2>h2.test;22>h2.test;23>h2.test;h2.test=9,2;")
a = s.user("alice", "1", src="127.0.0.2"); a.cmd("m", "server p one"); a.close()
for src, me in ((22, 0), (23, 0), (2, 1)):
    a = s.user("alice", "1", src="127.0.0.%d" % src)
    check(has(a.first, "Nick registered") == bool(me), "%d: %r" % (src, a.first))
    a.close()
    time.sleep(.3)
'''
