PROPERTY = 'C23'
NEEDS = 'The moderator of a group has been idle for longer than its limit, everybody else in it is away.'
BREAKS = 'He is told (again and again) that he lost moderation to members who are away.'
EDITS = [('server/ipcf.c', '''                             && (u_tab[ui].awaymsg[0] == '\\0')
                             && (find_group (u_tab[ui].group) == i)''', '''                             && (find_group (u_tab[ui].group) == i)''')]
DEMO = '''
s = Server(shim=True)
a = s.user("alice", "room"); b = s.user("bob", "room")
a.cmd("status", "b 0"); a.cmd("status", "im 10"); b.cmd("away", "%s gone")
off = 0
s.clock(700); b.cmd("away", "%s still gone")
s.clock(710)
check(not has(a.get(), "Idle-Mod"), "moderation taken although everybody is away")
'''
