PROPERTY = "C06"
NEEDS = "A user takes the name of another, which begins with his own."
BREAKS = "Two users have the same nickname."
EDITS = [("server/s_user.c", "            (strcasecmp(new_name, u_tab[n].nickname) != 0)) {", "            (strncasecmp(new_name, u_tab[n].nickname,\n                         strlen(u_tab[n].nickname)) != 0)) {")]
DEMO = '''
s = Server()
a = s.user("bobby", "1"); b = s.user("bob", "1")
r = b.cmd("name", "bobby")
check(has(r, "already in use"), "%r" % r)
'''
