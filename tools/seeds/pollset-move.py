PROPERTY = "C01"
NEEDS = "A connection ends while exactly as many are open as the list of polled sockets has room for."
BREAKS = "Memory beyond the list is read."
EDITS = [("pktserv/pktserv.c", "int move_count = g_pollsetsize - (i + 1);", "int move_count = g_pollsetsize - i;")]
DEMO = '''
s = Server(binary=asan())
for n in (15, 31):
    c = [s.conn() for i in range(n)]
    time.sleep(.5)
    for x in c:
        x.close()
    time.sleep(.5)
    check(s.alive(), "the server died: %s" % open(s.dir + "/err").read()[:300])
'''
