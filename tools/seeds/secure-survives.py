PROPERTY = "C13"
NEEDS = "Registration made secure, deleted, registered again (by anybody), then a login from the registered address."
BREAKS = "The new registration inherits the old one's demand for the password."
EDITS = [("server/access.c", '    icbdb_delete (nick, "secure");\n    icbdb_delete (nick, "realname");', '    icbdb_delete (nick, "realname");')]
DEMO = '''
s = Server()
a = s.user("alice", "1"); a.cmd("m", "server p one"); a.cmd("m", "server secure"); a.cmd("m", "server delete one"); a.close()
a = s.user("alice", "1"); a.cmd("m", "server p two"); a.close()
a = s.user("alice", "1")
check(has(a.first, "Nick registered"), "%r" % a.first)
'''
