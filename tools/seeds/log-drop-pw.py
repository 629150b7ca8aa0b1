PROPERTY = 'C30'
NEEDS = "A user drops another by the password of that one's nickname."
BREAKS = 'The log receives the password along with the name.'
EDITS = [('server/s_admin.c', 'u_tab[TheVictim].nickname, TheVictim);\n            mdb', 'fields[1], TheVictim);\n            mdb')]
DEMO = r'''
s = Server(args=["-l3"])
a = s.user("alice", "1")
a.send("h", "m", "server p Sesame17")
a.get()
b = s.user("bob", "1")
b.cmd("drop", "alice Sesame17")
time.sleep(2.5)
b.cmd("away", "x")
t = s.log()
check(b"[DROP] bob" in t and b"dropped alice" in t, "not logged: %r" % t)
check(b"Sesame17" not in t, "a password is in the log")
'''
