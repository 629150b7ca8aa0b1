PROPERTY = "C05"
NEEDS = "A message to a name that is longer than allowed and begins with the name of somebody there."
BREAKS = "The message reaches somebody who does not have that name."
EDITS = [("server/users.c", "if ( strcasecmp(u_tab[i].nickname, name) == 0) {", "if ( strncasecmp(u_tab[i].nickname, name, MAX_NICKLEN) == 0) {")]
DEMO = '''
s = Server()
a = s.user("alice", "1"); b = s.user("abcdefghijkl", "1"); a.get()
r = a.cmd("m", "abcdefghijklm hello")
check(has(r, "not signed on") and not has(b.get(), "hello"), "%r" % r)
'''
