PROPERTY = "C08"
NEEDS = "An invitation by address for registered users only, and a user from that address who is not registered."
BREAKS = "The unregistered user is let in."
EDITS = [("server/s_group.c", """                              (nlpresent(u_tab[n].nickname, *g_tab[ngi].nr_invites) &&
                               (strlen(u_tab[n].realname) > 0)) ||
                              (nlmatch(useraddr, *g_tab[ngi].sr_invites) &&
                               (strlen(u_tab[n].realname) > 0)));

                if (!is_invited""", """                              (nlpresent(u_tab[n].nickname, *g_tab[ngi].nr_invites) &&
                               (strlen(u_tab[n].realname) > 0)) ||
                              nlmatch(useraddr, *g_tab[ngi].sr_invites));

                if (!is_invited""")]
DEMO = '''
s = Server()
m = s.user("mod", "club"); o = s.user("outsider", "1", src="127.0.0.3")
m.cmd("status", "r")
m.cmd("invite", "-r -s *@*127.0.0.3*")
got = o.cmd("g", "club")
check(has(got, "restricted") and not has(got, "now in group"), "entered: %r" % got)
'''
