PROPERTY = "C09"
NEEDS = "A registered member of a controlled group who is on no talk list speaks."
BREAKS = "He is heard."
EDITS = [("server/msgs.c", """                           && (strlen (u_tab[n].realname) == 0
                               || nlpresent""", """                           && (strlen (u_tab[n].realname) == 0
                               && nlpresent""")]
DEMO = '''
s = Server()
m = s.user("mod", "g"); m.cmd("status", "c"); b = s.user("bob", "g"); 
r = b.cmd("m", "server p pw")
b.send("b", "hello"); r = b.get()
check(has(r, "permission") and not has(m.get(), "hello"), "%r" % r)
'''
