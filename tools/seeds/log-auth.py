PROPERTY = 'C30'
NEEDS = 'Somebody with the nickname of the administrator but not the password (or the other way round) uses an administrator command.'
BREAKS = 'The log says that they were authorized.'
EDITS = [('server/access.c', 'auth == 2 ? "yes" : "no"', 'auth ? "yes" : "no"')]
DEMO = r'''
s = Server(args=["-l3"])
a = s.user("admin", "1", pw="something")
a.cmd("log", "4")
a.cmd("shutdown", "10")
b = s.user("bob", "1")
b.cmd("log", "4")
t = s.log()
check(b"authorization of admin: no" in t and b"authorization of bob: no" in t, "refusals not logged: %r" % t)
check(b": yes" not in t, "the log says somebody was authorized: %r" % t)
'''
