PROPERTY = 'C11'
NEEDS = "A registered moderator's claim lapses with several members of different idle times in the group."
BREAKS = 'Moderation goes to the most idle member instead of the least idle.'
EDITS = [('server/ipcf.c', '''                        if (newmod == -1)
                            newmod = j;
                        else if ((u_tab[j].t_recv - u_tab[newmod].t_recv) > 0)
                            newmod = j;''', '''                        if (newmod == -1)
                            newmod = j;
                        else if ((u_tab[j].t_recv - u_tab[newmod].t_recv) < 0)
                            newmod = j;''')]
DEMO = '''
s = Server(shim=True)
a = s.user("alice", "room"); a.cmd("m", "server p one"); b = s.user("bob", "room"); c = s.user("carol", "room"); d = s.user("dave", "room")
a.close(); s.set(0, 100); c.cmd("w", "room")
s.clock(720)
check(has(b.get(), "carol is now mod"), "not given to the least idle member")
'''
