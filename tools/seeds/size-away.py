PROPERTY = 'C08'
NEEDS = 'A group with a user limit is full, counting a member who is away.'
BREAKS = 'Members who are away are not counted, so more users than the limit get in.'
EDITS = [('server/s_group.c', '''                    if ( !strcasecmp (u_tab[i].group, g_tab[ngi].name) )
                        ++num;''', '''                    if ( !strcasecmp (u_tab[i].group, g_tab[ngi].name)
                         && u_tab[i].awaymsg[0] == '\\0' )
                        ++num;''')]
DEMO = '''
s = Server()
a = s.user("alice", "room"); a.cmd("status", "# 2"); b = s.user("bob", "room"); c = s.user("carol", "1")
check(has(c.cmd("g", "room"), "is full"), "not full")
b.cmd("away", "%s gone")
check(has(c.cmd("g", "room"), "is full"), "more users than allowed")
'''
