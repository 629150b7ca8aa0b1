PROPERTY = "C13"
NEEDS = "A change to a password longer than the limit, then its use in full."
BREAKS = "The new password is stored longer than a given one is compared, so the owner can never authenticate again."
EDITS = [("server/access.c", """    if ( strlen (newpw) > MAX_PASSWDLEN )
        newpw[MAX_PASSWDLEN] = '\\0';
""", """    if ( strlen (newpw) > MAX_PKT_DATA )
        newpw[MAX_PKT_DATA] = '\\0';
""")]
DEMO = '''
s = Server()
a = s.user("alice", "1"); a.cmd("m", "server p one"); a.cmd("m", "server cp one abcdefghijklmnopqrstuvwxyz"); a.close()
a = s.user("alice", "1", src="127.0.0.3")
got = a.cmd("m", "server p abcdefghijklmnopqrstuvwxyz")
check(has(got, "Nick registered"), "%r" % got)
'''
