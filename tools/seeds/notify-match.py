PROPERTY = 'C21'
NEEDS = 'A user who has a notify pattern for addresses asks for a particular address that the pattern matches.'
BREAKS = 'The new entry is taken for one to be removed and is not added.'
EDITS = [('server/s_user.c', '''        if (nlpresent(who, *u_tab[n].s_notifies) == 0)
        {
            if (nlcount(*u_tab[n].s_notifies) == MAX_NOTIFIES)''', '''        if (nlmatch(who, *u_tab[n].s_notifies) == 0)
        {
            if (nlcount(*u_tab[n].s_notifies) == MAX_NOTIFIES)''')]
DEMO = '''
s = Server()
a = s.user("alice", "1")
a.cmd("notify", "-s *@localhost"); r = a.cmd("notify", "-s bob@localhost")
check(has(r, "added"), "not added: %r" % r)
a.cmd("notify", "-s *@localhost")
check(has(a.cmd("notify"), "BOB@LOCALHOST"), "entry is missing")
'''
