PROPERTY = "C24"
NEEDS = "A message with the first character that takes two bytes."
BREAKS = "The character is dropped from the message."
EDITS = [("server/strutil.c", "codepoint >= 0x80 && codepoint <= 0x7FF", "codepoint > 0x80 && codepoint <= 0x7FF")]
DEMO = '''
s = Server()
a = s.user("alice", "1"); b = s.user("bob", "1"); a.get()
a.raw(frame("b", b"x\\xc2\\x80y"))
r = b.get()
check(has(r, b"x\\xc2\\x80y"), "%r" % r)
'''
