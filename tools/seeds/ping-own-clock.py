PROPERTY = 'C22'
NEEDS = 'A user pings another one and then a third one (or is himself pinged) before the answers come.'
BREAKS = 'The time it took is measured from a different ping.'
EDITS = [('server/s_user.c', '''    gettimeofday (&ping_time[sendto], NULL);''', '''    gettimeofday (&ping_time[n], NULL);''')]
DEMO = '''
s = Server()
a = s.user("alice", "1"); b = s.user("bob", "1")
a.cmd("ping", "bob"); a.get(); b.send("m", "")
r = a.get()
check(has(r, "bob client responded in 0.") or has(r, "bob client responded in 1."), "wrong time: %r" % r)
'''
