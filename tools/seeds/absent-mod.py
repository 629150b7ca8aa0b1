PROPERTY = "C09"
NEEDS = "A registered moderator who is away for a while (his claim on the group still running) and a member who uses /status meanwhile."
BREAKS = "While the moderator's claim runs, any member can change the group's settings."
EDITS = [("server/s_group.c", "has_mod = (g_tab[gi].mod != -1 || g_tab[gi].modtimeout > 0.0);", "has_mod = (g_tab[gi].mod != -1);")]
DEMO = '''
s = Server()
m = s.user("mod", "club"); o = s.user("member", "club")
m.cmd("m", "server p secret")
m.close(); o.get()
got = o.cmd("status", "i")
check(has(got, "aren't the moderator"), "%r" % got)
check(has(o.cmd("status", ""), "(Visible /"), "the group's visibility changed")
'''
