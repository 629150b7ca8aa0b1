PROPERTY = 'C13'
NEEDS = "A nickname registered from one host is used from the same host by a login whose name is the end of the registered one."
BREAKS = 'He counts as registered without the password.'
EDITS = [('server/access.c', '''            if (strcasecmp(value, temp))
                retval = -2;''', '''            if (strlen(value) < strlen(temp) ||
                strcasecmp(value + strlen(value) - strlen(temp), temp))
                retval = -2;''')]
DEMO = '''
s = Server()
a = s.user("alice", "1", loginid="malice"); a.cmd("m", "server p one"); a.close()
a = s.user("alice", "1", loginid="alice")
check(not has(a.first, "Nick registered"), "taken for the owner")
a.close()
a = s.user("alice", "1", loginid="malice")
check(has(a.first, "Nick registered"), "not recognised")
'''
