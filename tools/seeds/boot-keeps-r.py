PROPERTY = 'C08'
NEEDS = 'A user in a restricted group on an invitation for registered users only is booted and comes back.'
BREAKS = 'Being booted does not cancel that invitation.'
EDITS = [('server/s_group.c', '''                    if ((nldelete(g_tab[destgi].n_invites,
                                  u_tab[dest].nickname) == 0) ||
                        (nldelete(g_tab[destgi].nr_invites,
                                  u_tab[dest].nickname) == 0)) {''', '''                    if (nldelete(g_tab[destgi].n_invites,
                                 u_tab[dest].nickname) == 0) {''')]
DEMO = '''
s = Server()
a = s.user("alice", "room"); b = s.user("bob", "1"); b.cmd("m", "server p one")
a.cmd("status", "r"); a.cmd("invite", "-r bob")
check(has(b.cmd("g", "room"), "now in group room"), "not let in")
a.cmd("boot", "bob")
check(has(b.get(), "booted you"), "not booted")
check(not has(b.cmd("g", "room"), "now in group room"), "let in again after having been booted")
'''
