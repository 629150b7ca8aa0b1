PROPERTY = 'C13'
NEEDS = 'A user who is registered gives a wrong password afterwards.'
BREAKS = 'He stays registered although he failed to prove the password.'
EDITS = [('server/access.c', '''            senderror(forWhom, mbuf);
            memset(u_tab[forWhom].realname, 0, MAX_REALLEN + 1);''', '''            senderror(forWhom, mbuf);''')]
DEMO = '''
s = Server()
a = s.user("alice", "1"); a.cmd("m", "server p one")
check(has(a.cmd("m", "server p two"), "Authorization failure"), "accepted")
check(has(a.cmd("m", "server rname X"), "requites"), "still registered")
'''
