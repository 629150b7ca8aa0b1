PROPERTY = "C13"
NEEDS = "The password is changed from another address than the one registered, then logins from both addresses."
BREAKS = "The address the nickname is trusted from stays the old one."
EDITS = [("server/access.c", '''                           newpw);
                sprintf(line, "Password changed");
                sendstatus(forWhom,"Pass",line);

                snprintf (addr, sizeof (addr), "%s@%s",
                          u_tab[forWhom].loginid,
                          u_tab[forWhom].nodeid);

                icbdb_set (nick, "home", ICBDB_STRING, addr);''', '''                           newpw);
                sprintf(line, "Password changed");
                sendstatus(forWhom,"Pass",line);

                snprintf (addr, sizeof (addr), "%s@%s",
                          u_tab[forWhom].loginid,
                          u_tab[forWhom].nodeid);

                if (!icbdb_get (nick, "home", ICBDB_STRING, &value))
                    icbdb_set (nick, "home", ICBDB_STRING, addr);''')]
DEMO = '''
s = Server()
a = s.user("alice", "1", src="127.0.0.2"); a.cmd("m", "server p one"); a.close()
a = s.user("alice", "1", src="127.0.0.3"); a.cmd("m", "server p one"); check(has(a.cmd("m", "server cp one two"), "changed"), "cp"); a.close()
a = s.user("alice", "1", src="127.0.0.2")
check(not has(a.first, "Nick registered"), "the old address is still trusted")
'''
