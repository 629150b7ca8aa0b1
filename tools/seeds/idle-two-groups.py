PROPERTY = 'C11'
NEEDS = 'A user who moderates two groups that have members is booted for idling.'
BREAKS = 'He goes on moderating the second group.'
EDITS = [('server/ipcf.c', '''                                else
                                    s_status_group(2, 0, j, "Pass", mbuf);
                            }
''', '''                                else
                                    s_status_group(2, 0, j, "Pass", mbuf);
                            }
                            break;
''')]
DEMO = '''
s = Server(shim=True)
x = s.user("dave", "1")
a = s.user("alice", "one"); b = s.user("bob", "one"); b.cmd("status", "x")
a.cmd("status", "im 100000"); a.cmd("status", "b 10")
a.cmd("g", "two"); c = s.user("carol", "two"); a.cmd("status", "im 100000"); a.cmd("status", "b 10")
s.set(0, 590); b.cmd("w", "one"); c.cmd("w", "two")
s.clock(800)
r = x.cmd("w")
check(has(a.get(), "Idle-Boot"), "not booted for idling")
check(not has(r, "Mod: alice"), "the idler still moderates a group")
'''
