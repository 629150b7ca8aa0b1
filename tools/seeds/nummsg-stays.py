PROPERTY = 'C14'
NEEDS = 'A registration with messages waiting is deleted and the nickname registered anew.'
BREAKS = 'The new owner is told about messages which are not there, and the mailbox counts as fuller than it is.'
EDITS = [('server/access.c', '    icbdb_delete (nick, "nummsg");\n', '')]
DEMO = r'''
s = Server()
a = s.user("alice", "1")
a.send("h", "m", "server p Sesame17")
a.get()
b = s.user("bob", "1")
b.send("h", "m", "server p Secret99")
b.get()
for k in range(2):
    b.send("h", "m", "server write alice hello %d" % k)
    b.get()
a.get()
a.send("h", "m", "server delete Sesame17")
a.get()
a.close()
time.sleep(.3)
c = s.user("alice", "1", loginid="other")
c.send("h", "m", "server p Other55")
c.get()
c.close()
time.sleep(.3)
c = s.user("alice", "1", pw="Other55", loginid="third")
check(not has(c.first, "You have"), "told about messages of the earlier owner: %r" % c.first)
'''
