PROPERTY = "C12"
NEEDS = "A user whose password is the beginning of the administrator's changes his name to admin."
BREAKS = "He gets the administrator's name."
EDITS = [("server/s_user.c", "            if (strcmp(u_tab[n].password, ADMIN_PWD) != 0) {", "            if (u_tab[n].password[0] == 0 ||\n                strncmp(u_tab[n].password, ADMIN_PWD, strlen(u_tab[n].password)) != 0) {")]
DEMO = '''
s = Server()
a = s.user("alice", "1", pw="ci")
got = a.cmd("name", "admin")
check(has(got, "already in use"), "%r" % got)
'''
