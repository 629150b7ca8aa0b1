PROPERTY = 'C11'
NEEDS = 'A registered moderator disconnects; before his claim lapses a registered user whose nickname is the beginning of his proves his password.'
BREAKS = 'The claim on the group goes to a different user.'
EDITS = [('server/access.c', '''                    (strcmp(g_tab[i].missingmod, 
                            u_tab[forWhom].nickname)==0))''', '''                    (strncmp(g_tab[i].missingmod, u_tab[forWhom].nickname,
                             strlen(u_tab[forWhom].nickname))==0))''')]
DEMO = '''
s = Server()
a = s.user("bobby", "room"); a.cmd("m", "server p one")
b = s.user("carol", "room"); c = s.user("bob", "1"); c.cmd("m", "server p two")
a.close()
check(has(b.get(), "timeout"), "no claim kept")
c.cmd("m", "server p two")
check(has(b.cmd("w", "room"), "Mod: bobby ("), "somebody else got the group")
'''
