PROPERTY = 'C15'
NEEDS = 'The disk reports an error when the new database file is synced.'
BREAKS = 'The error is ignored and the good database is replaced by one that may not be on the disk.'
EDITS = [('server/icb_dbm.c', '    if (fsync(fd) < 0)   goto fail;\n', '    fsync(fd);\n')]
DEMO = r'''
s = Server(shim=True)
a = s.user("alice", "1")
a.cmd("m", "server p secret")
time.sleep(.3)
a.get()
before = open(s.dir + "/icbdb.db", "rb").read()
n = s.get(5)
s.set(7, 1)
a.cmd("m", "server text something else")
time.sleep(.3)
check(open(s.dir + "/icbdb.db", "rb").read() == before, "the database was replaced although its new version could not be synced")
check(s.get(5) > n, "nothing was tried")
'''
