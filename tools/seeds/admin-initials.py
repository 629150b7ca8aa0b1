PROPERTY = 'C10'
NEEDS = "A user whose nickname is the beginning of the administrator's, in capitals (A, AD ...), lists all groups while there is a hidden one."
BREAKS = 'He sees invisible groups.'
EDITS = [('server/s_who.c', '''                      (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
        if( (strlen(g_tab[group].name)!=0) &&''', '''                      (! strncmp("ADMIN", u_tab[n].nickname,
                                 strlen(u_tab[n].nickname))));
        if( (strlen(g_tab[group].name)!=0) &&''')]
DEMO = '''
s = Server()
a = s.user("alice", "..hidden"); b = s.user("AD", "1"); c = s.user("carol", "1")
check(not has(c.cmd("w"), "alice"), "shown to anybody")
check(not has(b.cmd("w"), "alice"), "invisible group shown")
'''
