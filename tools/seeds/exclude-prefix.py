PROPERTY = "C04"
NEEDS = "/exclude of a user whose name is the beginning of another member's name."
BREAKS = "The other member is left out as well."
EDITS = [("server/s_group.c", "                        (strcasecmp(u_tab[i].nickname, getword(fields[1]))))", "                        (strncasecmp(u_tab[i].nickname, getword(fields[1]), strlen(getword(fields[1])))))")]
DEMO = '''
s = Server()
a = s.user("alice", "club"); b = s.user("bob", "club"); c = s.user("bobby", "club")
for x in (a, b, c): x.get()
a.cmd("exclude", "bob surprise party")
check(has(c.get(), "surprise party"), "bobby was left out")
check(not has(b.get(), "surprise party"), "bob got it")
'''
