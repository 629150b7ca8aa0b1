PROPERTY = 'C21'
NEEDS = 'The moderator of a restricted group has hushed somebody, by address only, who then tries to get in.'
BREAKS = 'The moderator is told about it all the same.'
EDITS = [('server/s_group.c', '                        if ( !nlmatch(one, *u_tab[gm].pri_s_hushed) &&\n                             !nlmatch(two, *u_tab[gm].pri_n_hushed) )\n                        {\n                            sprintf (mbuf,\n                                     "%s tried to enter the group.",', '                        if ( !nlmatch(one, *u_tab[gm].pri_s_hushed) ||\n                             !nlmatch(two, *u_tab[gm].pri_n_hushed) )\n                        {\n                            sprintf (mbuf,\n                                     "%s tried to enter the group.",')]
DEMO = r'''
s = Server()
z = s.user("zed", "1")
a = s.user("alice", "club")
a.cmd("status", "r")
b = s.user("bob", "1", loginid="robert")
a.get()
a.cmd("hush", "-p -s robert@*")
p = b.cmd("g", "club")
check(has(p, "restricted"), "not refused: %r" % p)
q = a.get()
check(not has(q, "tried to enter"), "told about a hushed user: %r" % q)
'''
