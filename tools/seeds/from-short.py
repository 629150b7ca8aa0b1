PROPERTY = 'C14'
NEEDS = 'A message is left by a user whose nickname has the maximum length.'
BREAKS = 'The sender shown with the stored message is cut.'
EDITS = [('server/access.c', '''                strncpy(from, value, MAX_NICKLEN);
                from[MAX_NICKLEN] = '\\0';''', '''                strncpy(from, value, MAX_NICKLEN - 1);
                from[MAX_NICKLEN - 1] = '\\0';''')]
DEMO = '''
s = Server()
a = s.user("abcdefghijkl", "1"); a.cmd("m", "server p one"); b = s.user("bob", "1"); b.cmd("m", "server p two")
a.cmd("m", "server write bob hello")
check(has(b.cmd("m", "server read"), "cabcdefghijkl\\x01hello"), "the sender is not the one who wrote")
'''
