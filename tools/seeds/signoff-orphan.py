PROPERTY = 'C15'
NEEDS = 'A user deletes his registration and then leaves.'
BREAKS = 'A piece of the deleted record comes back.'
EDITS = [('server/access.c', '    if ( class != 0 )\n    {\n        /* no', '    if ( class != 0 && openDb != NULL )\n    {\n        /* no')]
DEMO = r'''
s = Server()
a = s.user("alice", "1")
a.send("h", "m", "server p Sesame17")
a.get()
a.send("h", "m", "server delete Sesame17")
a.get()
a.close()
time.sleep(.4)
b = open(s.dir + "/icbdb.db", "rb").read()
check(b"alice." not in b, "the deleted record is back: %r" % b)
'''
