PROPERTY = 'C18'
NEEDS = 'A registered user moderating two groups with members left disconnects.'
BREAKS = 'Only the first of his groups is told and given to somebody; the other keeps the free slot as its moderator, so the next user there inherits it.'
EDITS = [('server/ipcf.c', '''    while ( (was_mod = check_mods(n)) != -1 )
''', '''    if ( (was_mod = check_mods(n)) != -1 )
''')]
DEMO = '''
s = Server()
x = s.user("dave", "1")
a = s.user("alice", "one"); a.cmd("m", "server p one")
b = s.user("bob", "one"); a.cmd("g", "two"); c = s.user("carol", "two")
a.close()
b.get(); c.get()
check(has(b.cmd("w", "one"), "Mod: alice ("), "first group")
check(has(b.cmd("w", "two"), "Mod: alice ("), "second group")
'''
