PROPERTY = "C21"
NEEDS = "A user on a notify list signs on into a group that is secret, but not supersecret."
BREAKS = "His arrival is not announced."
EDITS = [("server/msgs.c", """                    (g_tab[find_group(u_tab[n].group)].visibility !=
                     SUPERSECRET))""", """                    (g_tab[find_group(u_tab[n].group)].visibility ==
                     VISIBLE))""")]
DEMO = '''
s = Server()
a = s.user("alice", "1"); m = s.user("mod", "g"); m.cmd("status", "s"); a.cmd("notify", "bob")
b = s.user("bob", "g")
r = a.get()
check(has(r, "Notify-On"), "%r" % r)
'''
