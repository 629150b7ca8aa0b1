PROPERTY = 'C09'
NEEDS = 'A controlled group with a registered user on its talk list ends; another group later takes its place.'
BREAKS = 'The new group begins with that user on its talk list.'
EDITS = [('server/groups.c', '    nlclear(g_tab[n].nr_talk);\n', '')]
DEMO = r'''
s = Server()
z = s.user("zed", "1")
b = s.user("bob", "1")
b.send("h", "m", "server p Secret99")
b.get()
a = s.user("alice", "club")
a.cmd("status", "c")
a.cmd("talk", "-r bob")
a.cmd("g", "1")
a.cmd("g", "other")
a.cmd("status", "c")
b.cmd("g", "other")
a.get()
b.send("b", "may I?")
p = b.get()
check(not has(a.get(), "may I?"), "somebody not on the talk list was heard")
'''
