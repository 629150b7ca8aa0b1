PROPERTY = "C07"
NEEDS = "A permission entry for a login that another user's login begins with, from the same host."
BREAKS = "The entry is applied to the other user too."
EDITS = [("server/msgs.c", """            if ( !strcasecmp (arg1, login) &&
""", """            if ( !strncasecmp (arg1, login, strlen (arg1)) &&
""")]
DEMO = '''
s = Server(files={"icbd.perms": b"user bob localhost PERM_DENY\\nuser bob [127.0.0.1] PERM_DENY\\n"})
a = s.user("carol", "1", loginid="bobby")
check(not has(a.first, "denied") and not a.eof, "%r" % a.first)
'''
