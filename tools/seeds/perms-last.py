PROPERTY = "C07"
NEEDS = "A permissions file with two entries that apply to the same user, the first denying him."
BREAKS = "The last matching entry decides instead of the first, so a denied user gets in."
EDITS = [("server/msgs.c", """                 !strcasecmp (arg2, u_tab[n].nodeid) )
            {
                perm = perm2val (perms);
                break;
            }""", """                 !strcasecmp (arg2, u_tab[n].nodeid) )
            {
                perm = perm2val (perms);
            }""")]
DEMO = '''
s = Server(files={"icbd.perms": b"user eve localhost PERM_DENY\\nmask 127.0.0.0 255.0.0.0 PERM_NULL\\n"})
a = s.user("eve", "1")
check(has(a.first, "Login denied") and not has(a.first, "Welcome"), "%r" % a.first)
'''
